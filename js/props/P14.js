'use strict';
const path = require('path'), cp = require('child_process');
const { h } = require('../addon');
const { sourceArb, render } = require('./_src');
const { Choices } = require('../gen');
const { TINY, twist } = require('./_tiny');
const BIN = path.join(__dirname, '..', '..', 'harness', 'target', 'debug', 'xform');
const NAMES = ['/src/a.js', '/src/b.js', '/src/A.js', 'a.js', './a.js', 'a', '', 'é.js', 'e\u0301.js', 'C:\\a.js', 'unknown.js', '😀', 'a\n', '/src/a.jsx', 'x'.repeat(200), '0'];
const VARS = ['__coverage__', '__coverage__', '', 'x', 'a"b'];
const LOGS = [{}, { level: 'info' }, { level: 'trace', enableTrace: true }, { level: 'nope' }, { enableTrace: true }, { level: null }];
const ENVS = [{}, { HOME: '/nonexistent', TZ: 'Asia/Tokyo', LANG: 'de_DE.UTF-8', NODE_ENV: 'production', SWC_ENV: 'x', RUST_LOG: 'trace' }];
function fresh(list, env, cwd) {
  const r = cp.spawnSync(BIN, [], { input: list.map(([code, request]) => JSON.stringify({ code, request })).join('\n') + '\n', env, cwd, maxBuffer: 1 << 28, encoding: 'utf8', timeout: 60000 });
  if (r.status !== 0) return { dead: r.signal || r.status };
  return { out: r.stdout.split('\n').filter(Boolean) };
}
module.exports = {
  id: 'P14',
  quick: { cases: 12000 }, thorough: { cases: 400000 },
  rule: 'Histories of 2-9 instrumentation requests over 1-4 files (sources of every kind, same or different filenames and options, pairs that differ in one of the three, in the text at the same positions, or only in logging options), in a process that has already served thousands of other requests, on the same or another thread, at the same time on several threads, with their passes created first and run later, with or without other files loaded before; every answer (code and comments) is compared with that of the same request in a fresh process with another environment and working directory, and with its repetitions; non-trivial = at least two requests that emit coverage code, in different positions.',
  assumptions: ['sources the compiler parses'],
  gen: fc => {
    const nat = fc.noBias(fc.nat(0xffffff));
    return fc.record({ files: fc.noBias(fc.array(sourceArb(fc, { env: true, deep: 0 }), { minLength: 1, maxLength: 3, size: 'max' })), arr: fc.noBias(fc.array(nat, { minLength: 60, maxLength: 120, size: 'max' })) });
  },
  run(q) {
    const c = new Choices(q.arr), srcs = q.files.map(f => render(f));
    const opts = () => { const o = {}; if (c.p(40)) o.coverageVariable = c.of(VARS); if (c.p(50)) o.reportLogic = c.p(60); if (c.p(30)) o.debugInitialCoverageComment = true; if (c.p(30)) o.ignoreClassMethods = c.of([['m'], ['m0', 'constructor'], []]); if (c.p(20)) o.inputSourceMap = { version: 3, sources: ['a'], names: [], mappings: 'AAAA' }; if (c.p(15)) o.compact = true; return o; };
    // sources that share positions with another one but differ in what stands there
    for (let k = c.n(3); k > 0; k--) srcs.push(c.p(50) ? { code: c.of(TINY), syntax: 'es', goal: 'script', tags: [] } : twist(c.of(srcs), c));
    if (c.p(15)) { const t = { code: c.of(TINY), syntax: 'es', goal: 'script', tags: [] }; srcs.push(t, twist(t, c)); }
    // the distinct requests
    const reqs = []; const add = (s, filename, o) => reqs.push({ s, filename, o });
    for (const s of srcs) add(s, c.of(NAMES), opts());
    for (let k = c.n(3); k > 0; k--) { const b = c.of(reqs); switch (c.n(3)) { case 0: add(b.s, c.of(NAMES), b.o); break; case 1: add(b.s, b.filename, opts()); break; default: add(c.of(reqs).s, b.filename, b.o); } }
    const text = (r, log, before) => [r.s.code, JSON.stringify({ filename: r.filename, syntax: r.s.syntax, goal: r.s.goal, ...r.s.req, options: JSON.stringify(log ? { ...r.o, instrumentLog: log } : r.o), before })];
    const refs = reqs.map(r => text(r, null, [])), got = new Map();
    const show = () => reqs.map((r, i) => `--- ${i}: ${JSON.stringify(r.filename)} (${r.s.goal}, ${r.s.syntax}) ${JSON.stringify(r.o)}\n${r.s.code.slice(0, 1500)}`).join('\n') + '\n--- history ' + hist.join(' ');
    const hist = [], firstAt = new Map();
    const n = 2 + c.n(8);
    for (let i = 0; i < n + reqs.length; i++) {
      const k = i < n ? c.n(reqs.length) : i - n; // every request at least once
      const log = c.p(20) ? c.of(LOGS) : null, thread = c.p(15), before = c.p(15) ? ['a;\n', 'é'] : [];
      const [code, request] = text(reqs[k], log, before);
      const out = norm((thread ? h.transformDeep : h.transform)(code, request));
      hist.push(k + (log ? 'L' : '') + (thread ? 'T' : '') + (before.length ? 'B' : ''));
      if (!got.has(k)) { got.set(k, out); firstAt.set(k, i); }
      else if (got.get(k) !== out) return { fail: `request ${k} is answered differently at step ${i} than at step ${firstAt.get(k)}`, show: show() + '\n' + diff(got.get(k), out) };
    }
    // several at once: on threads of their own, or taking turns on this one
    const together = refs.map((_, k) => k), pick = [...together, c.of(together)];
    if (c.p(30)) {
      const rounds = 1 + c.n(4), r = h.transformParallel(JSON.stringify(pick.map(k => refs[k])), rounds);
      for (let i = 0; i < pick.length; i++) for (const o of r[i]) if (norm(o) !== got.get(pick[i])) return { fail: `request ${pick[i]} is answered differently when others are served on other threads`, show: show() + '\n' + diff(got.get(pick[i]), norm(o)) };
      hist.push('P');
    }
    if (c.p(35)) {
      const order = pick.map((_, i) => i); for (let i = order.length - 1; i > 0; i--) { const j = c.n(i + 1); [order[i], order[j]] = [order[j], order[i]]; }
      const r = h.transformInterleaved(JSON.stringify(pick.map(k => refs[k])), order);
      for (let i = 0; i < pick.length; i++) if (norm(r[i]) !== got.get(pick[i])) return { fail: `request ${pick[i]} is answered differently when its pass is created before and run after those of others`, show: show() + '\n' + diff(got.get(pick[i]), norm(r[i])) };
      hist.push('I');
    }
    // fresh processes: one for the first request alone, one for the others in reverse
    const env = ENVS[c.n(2)], cwd = c.of(['/', '/usr', '/tmp']);
    const f1 = fresh([refs[0]], env, cwd), rest = refs.slice(1).reverse(), f2 = rest.length ? fresh(rest, ENVS[0], '/') : { out: [] };
    if (f1.dead || f2.dead) return { discard: 'the fresh process died (P02)' };
    const all = [...f2.out, ...f1.out].reverse().map(norm);
    for (let k = 0; k < refs.length; k++) if (all[k] !== got.get(k)) return { fail: `request ${k} is answered differently in a fresh process`, show: show() + '\n' + diff(all[k], got.get(k)) };
    const ok = all.map(t => JSON.parse(t)), useful = ok.filter(r => r.ok && r.code.includes('_coverageSchema')).length;
    if (!ok.some(r => r.ok)) return { discard: 'not parsed' };
    return { nontrivial: useful >= 1 && hist.length >= 3, key: show(), n: 1, tags: ['requests:' + reqs.length, ...(hist.some(x => x.includes('L')) ? ['logging'] : []), ...(hist.some(x => x.includes('T')) ? ['threads'] : []), ...(hist.some(x => x.includes('B')) ? ['before'] : []), ...(hist.includes('P') ? ['parallel'] : []), ...(hist.includes('I') ? ['interleaved'] : [])], show: show() };
  },
};
// messages of the parser carry positions, which other loaded files shift
function norm(t) { if (t.includes('"ok":true')) return t; const r = JSON.parse(t); return JSON.stringify({ ok: r.ok, kind: r.kind }); }
function diff(a, b) { let i = 0; while (i < a.length && a[i] === b[i]) i++; return `--- from offset ${i}\n${a.slice(Math.max(0, i - 200), i + 200)}\n--- versus\n${b.slice(Math.max(0, i - 200), i + 200)}`; }
