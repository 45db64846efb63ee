'use strict';
const { huge, programArb, countCheck, isWhat, ASSUME } = require('./_prog');
module.exports = {
  id: 'P05',
  quick: { cases: 14000 }, thorough: { cases: 500000 },
  rule: 'Generated programs biased to functions of every form (declarations, expressions, arrows, methods, accessors, constructors, private members; async and generator), called through helpers, recursion and accessors; non-trivial = at least 2 function entries, at least one called.',
  assumptions: ASSUME,
  gen: fc => programArb(fc),
  enumerate: () => [huge(5)],
  run(c) {
    return countCheck(c, x => x.cat === 'fnCount' || isWhat(x, 'function'), a => a.exp.f.length >= 2 && a.exp.f.some(e => e.count > 0),
      {}, { bias: { fn: 10, class: 8, call: 8, iife: 4, obj: 6, new: 4 } });
  },
};
