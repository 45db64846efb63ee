'use strict';
const { huge, programArb, countCheck, isWhat, ASSUME } = require('./_prog');
module.exports = {
  id: 'P06',
  quick: { cases: 14000 }, thorough: { cases: 500000 },
  rule: 'Generated programs biased to if, conditional, switch, logical and default-value branches; non-trivial = at least 2 branch entries of which one has a path taken and a path not taken.',
  assumptions: ASSUME,
  gen: fc => programArb(fc),
  enumerate: () => [huge(2)],
  run(c) {
    return countCheck(c, x => x.cat === 'branchCount' || isWhat(x, 'branch'), a => a.exp.b.length >= 2 && a.exp.b.some(e => e.paths.some(p => p.count > 0) && e.paths.some(p => p.count === 0)),
      {}, { bias: { if: 8, switch: 8, cond: 8, logical: 8, destr: 3, var: 3, call: 3 } });
  },
};
