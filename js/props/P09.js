'use strict';
const { C, programArb, tagsOf, showSrc } = require('./_prog');
const { sourceArb, render } = require('./_src');
const { TINY, twist } = require('./_tiny');
const { Choices } = require('../gen');
const PREFIX = ['', '', '\ufeff', '#!/usr/bin/env node é\n', '\ufeff#! x\n', '/* é 中文\n two */ ', '// head\n\n', '\t  ', '/**\n * @fileoverview x\n */\n'];
const BEFORE = ['', 'x', 'var a = 1;\n', 'é中文\n\n// é', '\r\r\n`', '\ufeffabc'];
// Sources of every kind: no model of their constructs, so what must hold of every location, and how
// locations follow when text is put in front of the source.
const SHIFT = ['', '\n\n', '/* x */ ', '// é\n', '/* a\n 中 */', '\t'];
function anySource(c) {
  const ch = new Choices(c.tw);
  const s = ch.n(4) ? render(c.any) : { code: ch.of(TINY), syntax: 'es', goal: 'script', tags: ['tiny'] }, req = { goal: s.goal, syntax: s.syntax, options: c.logic ? { reportLogic: true } : {} };
  if (/^#!|^\ufeff/.test(s.code) || /[\u2028\u2029]/.test(s.code)) return { discard: 'hashbang, byte order mark or U+2028' };
  const a = C.instrument(s.code, req);
  if (!a.ok) return { discard: 'rejected: ' + a.kind };
  const cov = C.embedded(a.code);
  if (!cov) return { discard: 'no coverage data found in parsable output' };
  const lines = s.code.split(/\r\n|\n|\r/), show = () => `--- source (${s.goal}, ${s.syntax})\n${s.code}`;
  const locs = []; // [where, {start, end}]
  for (const k in cov.statementMap) locs.push(['statement ' + k, cov.statementMap[k]]);
  for (const k in cov.fnMap) locs.push(['function ' + k, cov.fnMap[k].loc], ['declaration ' + k, cov.fnMap[k].decl]);
  for (const k in cov.branchMap) { locs.push(['branch ' + k, cov.branchMap[k].loc]); cov.branchMap[k].locations.forEach((l, i) => locs.push([`branch ${k} path ${i}`, l])); }
  const empty = l => [l.start, l.end].every(q => q.line === 0 && q.column === 0);
  let real = 0;
  for (const [w, l] of locs) {
    if (empty(l)) continue;
    real++;
    for (const q of [l.start, l.end]) if (!(q.line >= 1 && q.line <= lines.length && q.column >= 0 && q.column <= lines[q.line - 1].length)) return { fail: `${w} lies outside the source: ${JSON.stringify(l)}`, show: show() };
    if (l.start.line > l.end.line || (l.start.line === l.end.line && l.start.column >= l.end.column)) return { fail: `${w} is not a range: ${JSON.stringify(l)}`, show: show() };
    if (/[\ud800-\udbff]/.test(lines[l.start.line - 1] + lines[l.end.line - 1])) continue; // columns count code points (known finding)
    const first = lines[l.start.line - 1][l.start.column], last = lines[l.end.line - 1][l.end.column - 1];
    if (first === undefined || /\s/.test(first) || last === undefined || /\s/.test(last)) return { fail: `${w} does not start and end at its text: ${JSON.stringify(l)}`, show: show() };
  }
  for (const k in cov.fnMap) if (cov.fnMap[k].line !== cov.fnMap[k].loc.start.line) return { fail: `function ${k} is reported on line ${cov.fnMap[k].line}`, show: show() };
  const pre = SHIFT[c.prefix % SHIFT.length], pl = pre.split('\n'), dl = pl.length - 1, dc = pl[dl].length;
  const b = C.instrument(pre + s.code, { ...req, before: c.before.map(i => BEFORE[i]) });
  if (!b.ok) return { fail: 'rejected after other text: ' + b.message, show: show() };
  const cov2 = C.embedded(b.code);
  if (!cov2) return { fail: 'no coverage data after other text', show: show() };
  const at = q => q.line === 0 ? q : { line: q.line + dl, column: q.line === 1 ? q.column + dc : q.column };
  const shift = l => empty(l) ? l : { start: at(l.start), end: at(l.end) };
  const map = (o, f) => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, f(v)]));
  const want = { s: map(cov.statementMap, shift), f: map(cov.fnMap, f => ({ name: f.name, decl: shift(f.decl), loc: shift(f.loc) })), b: map(cov.branchMap, x => ({ type: x.type, loc: shift(x.loc), locations: x.locations.map(shift) })) };
  const got = { s: map(cov2.statementMap, l => l), f: map(cov2.fnMap, f => ({ name: f.name, decl: f.decl, loc: f.loc })), b: map(cov2.branchMap, x => ({ type: x.type, loc: x.loc, locations: x.locations })) };
  const norm = o => JSON.stringify(o, (k, v) => v && typeof v === 'object' && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort(([x], [y]) => x < y ? -1 : 1)) : v);
  for (const k of ['s', 'f', 'b']) for (const i of new Set([...Object.keys(want[k]), ...Object.keys(got[k])])) if (norm(want[k][i]) !== norm(got[k][i])) return { fail: `${k} ${i} does not follow the text put in front (${JSON.stringify(pre)}): ${norm(got[k][i])} instead of ${norm(want[k][i])}`, show: show() };
  // after a file with other text at the same positions
  const t = twist(s, ch);
  if (C.instrument(t.code, req).ok) {
    const d = C.instrument(s.code, req), cov3 = d.ok && C.embedded(d.code);
    if (!cov3 || norm(cov3) !== norm(cov)) return { fail: 'locations or names changed after another file was compiled', show: show() + '\n--- the other file\n' + t.code + `\n--- alone ${norm(cov)}\n--- after ${cov3 && norm(cov3)}` };
  }
  return { nontrivial: real >= 4, key: s.code + c.prefix, tags: ['anySource', ...s.tags], show: s.code };
}
module.exports = {
  id: 'P09',
  quick: { cases: 24000 }, thorough: { cases: 600000 },
  rule: 'Generated programs printed with random white space, comments, line terminators (LF, CRLF, CR), byte order mark, hashbang and non-ASCII text, instrumented alone or after other files were loaded; the printer records the range of every construct; and (2 of 5 cases) sources of every kind, TypeScript, JSX and token mutants included, whose locations must lie inside the source, start and end at its text, and follow exactly when text is put in front or other files are loaded before; non-trivial = at least 4 entries, one of them beyond the first line.',
  assumptions: ['columns are UTF-16 units for text without supplementary characters (known finding otherwise)', 'U+2028/U+2029 are not used as line terminators: the compiler itself does not count them as lines', 'a byte order mark is not part of the source text'],
  gen: fc => {
    const env = { nl: fc.noBias(fc.constantFrom('\n', '\r\n', '\r')), prefix: fc.noBias(fc.nat(PREFIX.length - 1)), before: fc.noBias(fc.array(fc.nat(BEFORE.length - 1), { maxLength: 3 })), logic: fc.noBias(fc.boolean()) };
    return fc.oneof({ weight: 3, arbitrary: programArb(fc, env) }, { weight: 2, arbitrary: fc.record({ ...env, any: sourceArb(fc, { deep: 0 }), tw: fc.noBias(fc.array(fc.noBias(fc.nat(0xffffff)), { minLength: 8, maxLength: 24, size: 'max' })) }) });
  },
  run(c) {
    if (c.any) return anySource(c);
    const { p, src, goal, cjs, treq } = C.build(c, c.logic ? { banNames: ['Array', 'Object'] } : {}, { nl: c.nl, prefix: PREFIX[c.prefix] });
    const inst = C.instrument(src.code, { goal, cjs, ...treq, before: c.before.map(i => BEFORE[i]), options: c.logic ? { reportLogic: true } : {} });
    if (!inst.ok) return { discard: 'rejected: ' + inst.message };
    const cov = C.embedded(inst.code);
    if (!cov) return { discard: 'no coverage data found in parsable output' };
    const exp = C.R.expected(src, {}, {}), diffs = C.R.diff(exp, C.R.reported(cov, src));
    const bad = diffs.filter(x => x.cat === 'loc');
    for (const w of ['statement', 'function', 'branch']) {
      const of = k => diffs.filter(x => x.cat === k && x.what === w);
      const m = of('missing'), e = of('extra');
      if (m.length && e.length) bad.push(m[0], e[0]);
    }
    const out = { src, inst };
    if (bad.length) return { fail: bad.slice(0, 6).map(x => JSON.stringify(x)).join('\n'), show: showSrc(out) };
    const n = exp.s.length + exp.f.length + exp.b.length;
    return { nontrivial: n >= 4 && exp.s.some(s => !s.key.startsWith('1:')), key: src.code + c.nl, tags: [c.goal, 'mode:' + c.mode, 'nl' + JSON.stringify(c.nl), 'prefix' + c.prefix, 'before' + c.before.length, ...tagsOf(p)], show: src.code };
  },
};
