'use strict';
const { programArb, countCheck, isWhat, ASSUME } = require('./_prog');
module.exports = {
  id: 'P08',
  quick: { cases: 20000 }, thorough: { cases: 500000 },
  rule: 'Generated programs of all constructs with random layout, under random combinations of the other options; the printer lists every executable statement, function, branch and branch path with its source range; non-trivial = at least 4 entries of at least 2 kinds.',
  assumptions: ASSUME,
  gen: fc => programArb(fc, { logic: fc.noBias(fc.constantFrom(false, false, true)) }, { len: 300 }),
  run(c) {
    return countCheck(c, x => x.cat === 'missing' || x.cat === 'extra', a => {
      const kinds = [a.exp.s.length, a.exp.f.length, a.exp.b.length];
      return kinds[0] + kinds[1] + kinds[2] >= 4 && kinds.filter(Boolean).length >= 2;
    }, c.logic ? { reportLogic: true } : {}, c.logic ? { banNames: ['Array', 'Object'], laterFn: true } : { laterFn: true });
  },
};
