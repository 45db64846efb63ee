'use strict';
const { huge, programArb, countCheck, isWhat, ASSUME } = require('./_prog');
module.exports = {
  id: 'P04',
  quick: { cases: 14000 }, thorough: { cases: 500000 },
  rule: 'Generated programs with random layout and inputs, biased to loops, try, labels, generators and async code; non-trivial = at least 3 statement entries, at least one executed twice or more and at least one never executed.',
  assumptions: ASSUME,
  gen: fc => programArb(fc),
  enumerate: () => [huge(0)],
  run(c) {
    return countCheck(c, x => x.cat === 'stmtCount' || isWhat(x, 'statement'), a => {
      const n = a.exp.s.map(e => e.count); return n.length >= 3 && n.some(v => v > 1) && n.some(v => v === 0);
    }, {}, { bias: { for: 4, while: 3, forof: 3, try: 5, label: 3, ret: 3, jump: 3, var: 5 } });
  },
};
