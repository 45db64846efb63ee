'use strict';
const { C, MODES, programArb, tagsOf, entries, showSrc, behaviourDiff } = require('./_prog');
module.exports = {
  id: 'P01',
  quick: { cases: 24000 }, thorough: { cases: 600000 },
  rule: 'Programs are decoded from random choice sequences (statements, functions, classes, patterns, loops, try, switch, labels, generators, async, directives, modules) with random layout, inputs and options; non-trivial = the program ran, left a trace of at least 3 events and has at least 3 coverage entries.',
  assumptions: ['Node 22 as the JavaScript engine', 'the uninstrumented output of the same swc pipeline is the reference behaviour', 'programs do not inspect Function.prototype.toString text, stack traces or the coverage variables'],
  gen: fc => programArb(fc, {
    opts: fc.noBias(fc.record({ reportLogic: fc.boolean(), compact: fc.boolean(), coverageVariable: fc.constantFrom('__coverage__', 'x-cov', '__c'), debugInitialCoverageComment: fc.boolean(), ignoreClassMethods: fc.constantFrom([], ['m0'], ['m1', 'v1']) }, { requiredKeys: [] })),
  }, { modes: [...MODES, 'decLate'] }),
  run(c) {
    const io = c.opts || {};
    const out = C.execute(c, { banNames: io.reportLogic ? ['Array', 'Object'] : [] }, {}, io);
    if (out.discard) return { discard: out.discard };
    if (out.fail) return { fail: out.fail, show: showSrc(out) };
    if (out.run.status !== 'ok') return { fail: 'instrumented output does not run: ' + (out.run.message || out.run.status), show: showSrc(out) };
    const d = behaviourDiff(out, c);
    if (d) return { fail: 'behaviour differs (original vs instrumented): ' + d, show: showSrc(out) };
    return { nontrivial: out.orig.trace.length >= 3 && entries(out.src) >= 3, key: out.src.code + JSON.stringify(io), tags: [c.goal, 'mode:' + c.mode, ...Object.keys(io), ...tagsOf(out.p)], show: out.src.code };
  },
};
