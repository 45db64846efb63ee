'use strict';
// Shared pieces of the program-level properties.
const C = require('../case');
const { HUGE } = require('../gen');
const MODES = ['', '', '', '', '', '', '', '', 'ts', 'ts', 'tsLate', 'dec2022', 'dec2021', 'decLegacy'];
/** arbitrary: a program as a choice sequence, its layout, its inputs */
function programArb(fc, extra = {}, o = {}) {
  const nat = fc.noBias(fc.nat(0xffffff));
  const len = o.len || 480;
  return fc.record({
    prog: fc.noBias(fc.array(nat, { minLength: o.min || 20, maxLength: len, size: 'max' })),
    layout: fc.noBias(fc.oneof(fc.constant([]), fc.array(nat, { minLength: 1, maxLength: 300, size: 'max' }))),
    inputs: fc.noBias(fc.array(fc.nat(40), { minLength: 1, maxLength: 14, size: 'max' })),
    goal: fc.noBias(fc.constantFrom('module', 'module', 'script')),
    fuel: fc.noBias(fc.constantFrom(80, 40, 160)),
    ...(o.modes !== null ? { mode: fc.noBias(fc.constantFrom(...(o.modes || MODES))), ann: fc.noBias(fc.array(nat, { minLength: 1, maxLength: 120, size: 'max' })) } : {}),
    scale: fc.noBias(fc.nat(0xffffff)),
    ...extra,
  });
}
/** one program with 66000 constructs of a kind */
const huge = (i, extra = {}) => ({ prog: [0, 0, 11, 5, 3, 8], layout: [], inputs: [1], goal: 'script', fuel: 80, mode: '', ann: [0], scale: HUGE + i, ...extra });
const tagsOf = p => [...p.feat.keys()];
const entries = src => src.s.length + src.f.length + src.b.length;
const singleCov = run => { const v = run.coverage && Object.values(run.coverage); return v && v.length ? v[0] : null; };
const showSrc = (out, extra) => '--- source\n' + out.src.code + (out.inst && out.inst.code ? '\n--- instrumented\n' + out.inst.code : '') + (extra ? '\n--- ' + extra : '');
const sum = o => Object.values(o || {}).reduce((a, b) => a + b, 0);
const TWIN = 'the probed program behaves differently';
/** the nodes a behaviour-changing instrumenter would make incomparable are left to P01 */
function analyse(c, io = {}, gopts = {}, popts = {}, treq = {}) {
  const out = C.execute(c, gopts, popts, io, treq);
  if (out.discard) return { discard: out.discard };
  if (out.fail) return { discard: 'not instrumented (P02): ' + out.fail };
  if (out.run.status !== 'ok') return { discard: 'instrumented output does not run (P01/P02)' };
  const tw = C.twin(out, c);
  if (tw.status !== 'ok') { if (tw.status === 'timeout') return { discard: 'timeout' }; if (process.env.VERIF_TWIN) throw new Error('twin does not run: ' + tw.message + '\n' + out.twinCode); return { discard: TWIN }; }
  // recursion that only ends with the stack (through accessors) depends on frame sizes
  if (Object.values(tw.counts).some(v => v > 1500)) return { discard: 'runs out of stack or too hot' };
  const d = C.firstDiff(out.orig, tw);
  if (C.firstDiff(out.orig, out.run)) return { discard: 'behaviour differs (P01)' };
  if (d) { if (process.env.VERIF_TWIN) throw new Error('twin behaves differently: ' + d + '\n' + out.src.code + '\n---\n' + out.twinCode); return { discard: TWIN }; }
  if (!out.run.coverage) {
    const x = C.R.expected(out.src, tw.counts, tw.truthy), live = e => !e.ign && !e.opt && (e.count > 0 || (e.paths || []).some(q => q.count > 0));
    if (![...x.s, ...x.f, ...x.b].some(live)) return { discard: 'ends before anything is executed or registered' };
    return { out, tw, fail: 'constructs were executed but no coverage was registered' };
  }
  const paths = Object.keys(out.run.coverage);
  if (paths.length !== 1) return { out, tw, fail: 'registered paths: ' + paths };
  const cov = out.run.coverage[paths[0]];
  const exp = C.R.expected(out.src, tw.counts, tw.truthy), rep = C.R.reported(cov, out.src);
  return { out, tw, cov, exp, rep, diffs: C.R.diff(exp, rep, { reportLogic: !!io.reportLogic }) };
}
/** run() of a property that owns some categories of difference */
function countCheck(c, owns, nontrivial, io, gopts, popts, treq) {
  const a = analyse(c, io, gopts, popts, treq);
  if (a.discard) return { discard: a.discard };
  if (a.fail) return { fail: a.fail, show: showSrc(a.out) };
  const bad = a.diffs.filter(owns);
  if (bad.length) return { fail: bad.slice(0, 5).map(x => JSON.stringify(x)).join('\n'), show: showSrc(a.out, 'twin\n' + a.out.twinCode) };
  return { nontrivial: nontrivial(a), key: a.out.src.code + JSON.stringify(c.inputs), tags: [c.goal, 'mode:' + c.mode, ...tagsOf(a.out.p)], show: a.out.src.code };
}
const isWhat = (x, w) => (x.cat === 'missing' || x.cat === 'extra') && (x.what || '').startsWith(w);
const ASSUME = ['Node 22 as the JavaScript engine', 'ground truth: the same program printed with a probe call at every construct and run uninstrumented; probed and unprobed runs must have equal behaviour'];
/** P01-style comparison that tolerates stack exhaustion */
function behaviourDiff(out, c, run = out.run) {
  const d = C.firstDiff(out.orig, run);
  if (!d) return null;
  const tw = C.twin(out, c);
  return tw.status === 'ok' && Object.values(tw.counts).some(v => v > 1500) ? null : d;
}
module.exports = { huge, MODES, behaviourDiff, ASSUME, analyse, countCheck, isWhat, C, programArb, tagsOf, entries, singleCov, showSrc, sum };
