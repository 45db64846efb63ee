'use strict';
const { C, programArb, analyse, tagsOf, showSrc, ASSUME, behaviourDiff } = require('./_prog');
const strip = cov => JSON.stringify({ ...cov, bT: undefined, hash: undefined });
module.exports = {
  id: 'P07',
  quick: { cases: 7000 }, thorough: { cases: 400000 },
  rule: 'Generated programs biased to (nested) logical expressions over operands of every kind of value, instrumented with reportLogic on and off and as probed twin; non-trivial = at least one logical entry with a truthy and a non-truthy operand evaluation.',
  assumptions: ASSUME.concat(['programs do not declare the names Array and Object, which the emitted truthiness test refers to (known finding)']),
  gen: fc => programArb(fc),
  run(c) {
    const go = { banNames: ['Array', 'Object'], bias: { logical: 25, if: 5 } };
    const off = analyse(c, {}, go);
    if (off.discard) return { discard: off.discard };
    const on = C.execute(c, go, {}, { reportLogic: true });
    if (on.fail) return { fail: 'fails with reportLogic only: ' + on.fail, show: showSrc(on) };
    if (on.run.status === 'timeout') return { discard: 'timeout' };
    if (on.run.status !== 'ok') return { fail: 'does not run with reportLogic: ' + on.run.message, show: showSrc(on) };
    const d = C.firstDiff(off.out.orig, on.run) && behaviourDiff(off.out, c, on.run);
    if (d) return { fail: 'reportLogic changes the behaviour: ' + d, show: showSrc(on) };
    if (off.fail) return { discard: off.fail };
    if (!on.run.coverage) return { fail: 'no coverage registered with reportLogic', show: showSrc(on) };
    const cov = Object.values(on.run.coverage)[0];
    if (strip(cov) !== strip(off.cov)) return { fail: 'reportLogic changes entries or counts other than bT:\n' + strip(cov) + '\n' + strip(off.cov), show: showSrc(on) };
    if (off.cov.bT !== undefined && Object.keys(off.cov.bT).length) return { fail: 'truthiness counters with reportLogic off', show: showSrc(off.out) };
    const exp = C.R.expected(on.src, off.tw.counts, off.tw.truthy);
    const bad = C.R.diff(exp, C.R.reported(cov, on.src), { reportLogic: true }).filter(x => x.cat === 'logic');
    if (bad.length) return { fail: bad.slice(0, 5).map(x => JSON.stringify(x)).join('\n'), show: showSrc(on, 'twin\n' + off.out.twinCode) };
    const lg = exp.b.filter(b => b.type === 'binary-expr').flatMap(b => b.paths);
    return { nontrivial: lg.some(p => p.truthy > 0) && lg.some(p => p.count > p.truthy), key: on.src.code + JSON.stringify(c.inputs), tags: [c.goal, 'mode:' + c.mode, ...tagsOf(on.p)], show: on.src.code };
  },
};
