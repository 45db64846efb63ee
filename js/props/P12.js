'use strict';
const { programArb, countCheck, ASSUME } = require('./_prog');
const POOL = ['foo', 'bar', 'render', 'get', 'set', 'static', 'async', 'constructor', '中文', '$', '_x', 'toString', 'default'];
const NOISE = ['Foo', 'fo', 'foo ', '', 'foo.bar', '#foo', '*', '[object Object]', '__proto__', 'hasOwnProperty', 'ｆoo', 'constructor()'];
module.exports = {
  id: 'P12',
  quick: { cases: 14000 }, thorough: { cases: 400000 },
  rule: 'Generated programs with many classes and objects whose methods, accessors, constructors and named function expressions take their names from a small pool, as do some function and class declarations, which are not methods, and ignoreClassMethods lists of 0-4 pool names and near-miss names; expected report = every construct outside the listed methods, with its probed count; non-trivial = at least one entry removed by the option and at least 3 remaining.',
  assumptions: [...ASSUME, 'names are matched against identifier keys, constructors and the own names of function expressions; string, computed and private keys are not names'],
  gen: fc => programArb(fc, { names: fc.noBias(fc.array(fc.nat(POOL.length - 1), { maxLength: 4 })), noise: fc.noBias(fc.array(fc.nat(NOISE.length - 1), { maxLength: 2 })), logic: fc.noBias(fc.constantFrom(false, false, true)), hints: fc.noBias(fc.constantFrom(false, false, true)) }),
  run(c) {
    const list = [...c.names.map(i => POOL[i]), ...c.noise.map(i => NOISE[i])];
    return countCheck(c, () => true, a => {
      const src = a.out.src; const left = [...src.s, ...src.f, ...src.b];
      return left.some(e => e.ign) && left.filter(e => !e.ign).length >= 3;
    }, { ignoreClassMethods: list, ...(c.logic ? { reportLogic: true } : {}) }, { hints: c.hints, methodNames: POOL, declNames: ['foo', 'bar', 'render', '中文', '$', '_x'], banNames: c.logic ? ['Array', 'Object'] : [], bias: { class: 20, new: 10, obj: 8, calls: 10, fn: 4 } }, { ignoreMethods: list });
  },
};
