'use strict';
const { programArb, countCheck, ASSUME } = require('./_prog');
module.exports = {
  id: 'P10',
  quick: { cases: 14000 }, thorough: { cases: 400000 },
  rule: 'Generated programs with hints (six spellings, each kind) placed before statements, switch cases, members, conditional sides, logical operands and if statements, amid comments that only resemble hints; expected report = constructs outside every hinted construct with their probed counts; non-trivial = at least one hint that removes something and at least 3 remaining entries.',
  assumptions: ASSUME,
  gen: fc => programArb(fc, { logic: fc.noBias(fc.constantFrom(false, false, true)) }),
  run(c) {
    return countCheck(c, () => true, a => {
      const src = a.out.src; const left = [...src.s, ...src.f, ...src.b];
      return left.some(e => e.ign || (e.paths && e.paths.some(p => p.drop))) && left.filter(e => !e.ign).length >= 3;
    }, c.logic ? { reportLogic: true } : {}, { hints: true, banNames: c.logic ? ['Array', 'Object'] : [] });
  },
};
