'use strict';
const { C } = require('./_prog');
const { newWorld, runIn, plainCoverage } = require('../exec');
const { generate } = require('../gen');
const { printSource, printTwin } = require('../print');
const { transform } = require('../addon');
const FILES = ['/src/a.js', '/src/A.js', '/src/a.js ', './src/a.js', 'src/a.js', '/src/b.js', 'C:\\src\\a.js', 'c:\\src\\a.js', 'C:/src/a.js', '', 'a"b', "a'b", 'a\nb', 'é中文.js', 'e\u0301.js', '😀', 'constructor', 'toString', 'hasOwnProperty', '0', '1', 'a*/b', '\u2028', '\\', '${x}', 'unknown.js', 'length', '/src/a.jsx'];
const VARS = ['__coverage__', '__coverage__', '', 'a b', 'x"y', 'é', '0', 'my-coverage', '\u2028', "'", '__cov\\n', '${z}', '__coverage'];
const SPECIAL = ['path', 'hash', 'global', 'gcv', 'coverageData', 'coverage', 'actualCoverage', 'Array', 'Object', 'Function', 'temp', 'cov', 'exports_', 'ünïcode', '变量', '$', '_'];
const STEP = 100000;
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const maps = d => ({ all: d.all, path: d.path, statementMap: d.statementMap, fnMap: d.fnMap, branchMap: d.branchMap, s: Object.keys(d.s), f: Object.keys(d.f), b: Object.keys(d.b).map(k => [k, d.b[k].length]), bT: d.bT && Object.keys(d.bT), h: d.hash });
// hundreds of scripts with similar names in one global scope, each run 0-2 times: all must keep their own counts
function many(c) {
  const names = new Set(), d = c.from % 7;
  for (let i = 0; names.size < 500; i++) {
    const k = c.from + i * 7919, h = k.toString(36).split('');
    names.add(['/src/' + h.join('') + '.js', '/src/' + h.reverse().join('') + '.js', '/' + h.join('/') + '/index.js', 'a'.repeat(i) + '.js', '/src/' + i + '.js', '/src/' + (i & 1 ? 'A' : 'a') + (i >> 1) + '.js', String(k)][(i + d) % 7]);
  }
  const list = [...names], A = newWorld({ inputs: [1], fuel: 40 }), g = list.map((n, i) => ({ n, i, runs: (c.from + i * i) % 3 }));
  const show = () => `500 scripts in one scope: ${list.slice(0, 30).join(' ')} ...`;
  for (const f of g) {
    const r = transform(`function f${f.i}() { return ${f.i}; }\nif (typeof f${f.i} === 'function') f${f.i}();`, { goal: 'script', cjs: false, filename: f.n, options: {} });
    if (!r.ok) return { discard: 'not instrumented (P02)' };
    f.code = r.code;
  }
  const vm = require('vm'), run = code => vm.runInContext(code, A.sandbox);
  for (const f of g) run(f.code);
  for (const f of g) for (let q = 0; q < f.runs; q++) run(`f${f.i}()`);
  const cv = A.g['__coverage__'];
  for (const f of g) {
    const e = cv && Object.prototype.hasOwnProperty.call(cv, f.n) ? cv[f.n] : null;
    if (!e) return { fail: `${JSON.stringify(f.n)} is not registered`, show: show() };
    const got = JSON.stringify(Object.values(e.f));
    if (got !== JSON.stringify([1 + f.runs])) return { fail: `the function of ${JSON.stringify(f.n)} ran ${1 + f.runs} times, its counts are ${got}`, show: show() };
  }
  return { nontrivial: true, key: 'many' + c.from, tags: ['many'], show: show() };
}
module.exports = {
  id: 'P13',
  quick: { cases: 9000 }, thorough: { cases: 250000 },
  rule: 'Histories over 1-4 generated files (modules in their own scope, scripts sharing the global scope, sometimes two versions of one file) with similar and odd filenames and coverage variables, compiled in one process in random order, then evaluated in random order, modules also repeatedly, into a global that may already hold coverage of other files; the counts of every file are compared with its own probes in the same history of probed twins; non-trivial = at least two files with counted constructs, or a repeated evaluation.',
  assumptions: ['counts of a file evaluated again are either of its latest evaluation or of all of them', 'the filename is not __proto__, the coverage variable is not a name the global object already has', 'a file whose first statement throws before anything is counted need not be registered (known finding)', 'two versions of a file share no scope'],
  gen: fc => {
    const nat = fc.noBias(fc.nat(0xffffff));
    const file = fc.record({ prog: fc.noBias(fc.array(nat, { minLength: 20, maxLength: 220, size: 'max' })), name: fc.noBias(fc.nat(FILES.length - 1)), goal: fc.noBias(fc.constantFrom('module', 'module', 'script')), logic: fc.noBias(fc.constantFrom(false, false, true)), lib: fc.noBias(fc.constantFrom(false, false, false, false, true)) });
    return fc.record({ many: fc.noBias(fc.nat(299)), from: fc.noBias(fc.nat(0xffffff)), files: fc.noBias(fc.array(file, { minLength: 1, maxLength: 4, size: 'max' })), versions: fc.noBias(fc.nat(5)), covVar: fc.noBias(fc.nat(VARS.length - 1)), seeded: fc.noBias(fc.nat(3)), compile: fc.noBias(fc.array(fc.nat(9), { maxLength: 8 })), evals: fc.noBias(fc.array(fc.nat(9), { minLength: 1, maxLength: 7, size: 'max' })), inputs: fc.noBias(fc.array(fc.nat(40), { minLength: 1, maxLength: 10 })) });
  },
  run(c) {
    if (c.many === 299) return many(c);
    const covVar = VARS[c.covVar], n = c.files.length;
    const files = c.files.map((f, i) => {
      const gopts = { goal: f.goal, budget: 60, uidBase: STEP * i, banNames: f.goal === 'script' ? SPECIAL : ['Array', 'Object'] };
      const p = generate(f.prog, gopts), popts = { uidBase: STEP * i };
      // a library: nothing in it runs when it is loaded
      if (f.lib) p.body = p.body.filter(x => x.k === 'fnDecl' || (x.k === 'export' && x.d.k === 'fnDecl'));
      return { i, goal: f.goal, name: FILES[f.name], p, lib: f.lib, src: printSource(p, null, popts), twin: printTwin(p, popts), cjs: f.goal === 'module', logic: f.logic };
    });
    // distinct names, except for two versions of one module
    const names = new Set(); let version = null;
    for (const f of files) {
      if (c.versions === 5 && version === null && f.i > 0 && f.cjs && files[f.i - 1].cjs) { f.name = files[f.i - 1].name; version = f.i; }
      else { let k = 0; while (names.has(f.name)) f.name = FILES[(FILES.indexOf(f.name) + ++k) % FILES.length]; }
      names.add(f.name);
    }
    const show = () => files.map(f => `--- ${f.goal} ${JSON.stringify(f.name)}${f.logic ? ' reportLogic' : ''}\n${f.src.code}`).join('\n') + `\n--- variable ${JSON.stringify(covVar)} evaluated: ${order.join(' ')}`;
    const order = [], done = new Set();
    for (const e of [...c.evals.map(e => e % n)]) { if (files[e].goal === 'script' && done.has(e)) continue; done.add(e); order.push(e); }
    // compilation, in another order and some files more than once
    const code = new Array(n).fill(null);
    const compile = f => {
      const base = { goal: f.goal, cjs: f.cjs, filename: f.name };
      const r = transform(f.src.code, { ...base, options: { coverageVariable: covVar, reportLogic: f.logic } });
      if (!r.ok) return 'not instrumented (P02)';
      code[f.i] = r.code;
      if (!f.tcode) { const t = transform(f.twin.code, { ...base, options: null }); if (!t.ok) return 'twin rejected'; f.tcode = t.code; f.emb = C.embedded(r.code); }
      return null;
    };
    for (const k of [...c.compile.map(k => k % n), ...files.map(f => f.i).filter(i => !c.compile.some(k => k % n === i))]) { const e = compile(files[k]); if (e) return { discard: e }; }
    const mk = () => newWorld({ inputs: c.inputs, fuel: 60 * order.length });
    const A = mk(), B = mk();
    let other = null, otherText = null;
    if (c.seeded && !(covVar in A.g)) {
      const vm = require('vm');
      A.g.__seed = covVar; vm.runInContext(`globalThis[__seed] = { 'other.js': { path: 'other.js', s: { 0: 7 }, hash: 'x' }, 'z': { s: {} } }; delete globalThis.__seed;`, A.sandbox);
      other = A.g[covVar]; otherText = JSON.stringify(other);
    }
    const since = new Map(), total = [];
    const latest = new Map(), evals = new Map();
    for (const i of order) {
      const f = files[i];
      since.set(i, { ...B.rt.counts }); since.get(i).__t = { ...B.rt.truthy };
      latest.set(f.name, i); evals.set(i, (evals.get(i) || 0) + 1);
      const rb = runIn(B, f.tcode, { cjs: f.cjs });
      if (rb.status === 'timeout') return { discard: 'timeout' };
      if (rb.status !== 'ok') return { discard: 'twin does not evaluate: ' + String(rb.message).slice(0, 30) };
      if (rb.earlyError) return { discard: 'early error' };
      const ra = runIn(A, code[i], { cjs: f.cjs, covVar });
      if (ra.status === 'timeout') return { discard: 'timeout' };
      if (Object.values(B.rt.counts).some(v => v > 1500)) return { discard: 'runs out of stack or too hot' };
      if (ra.status !== 'ok') return { fail: `file ${i} does not evaluate: ` + ra.message, show: show() };
      if (ra.completion === 'normal' && !ra.loaded.includes(f.name)) return { fail: `${JSON.stringify(f.name)} is loaded and not registered`, show: show() };
      if (ra.completion !== rb.completion || ra.exports !== rb.exports || ra.driveError !== rb.driveError || !same(ra.trace, rb.trace)) return { fail: `evaluating file ${i} behaves differently: ` + C.firstDiff({ ...rb, globals: {} }, { ...ra, globals: {} }), show: show() };
    }
    const cv = A.g[covVar];
    const counts = B.rt.counts, truthy = B.rt.truthy;
    const live = x => [...x.s, ...x.f, ...x.b].some(e => !e.ign && !e.opt && (e.count > 0 || (e.paths || []).some(q => q.count > 0)));
    const expect = (i, base, tbase) => { const d = {}, t = {}; for (const k in counts) d[k] = counts[k] - (base[k] || 0); for (const k in truthy) t[k] = truthy[k] - (tbase[k] || 0); return C.R.expected(files[i].src, d, t); };
    let counted = 0;
    if (cv === undefined) { for (const [, i] of latest) if (live(expect(i, {}, {}))) return { fail: 'nothing is registered under ' + JSON.stringify(covVar), show: show() }; return { discard: 'nothing counted' }; }
    const plain = plainCoverage(cv);
    if (other) {
      if (cv !== other) return { fail: 'the coverage object that was there is replaced', show: show() };
      const left = JSON.stringify({ 'other.js': cv['other.js'], z: cv.z });
      if (left !== otherText) return { fail: 'entries of other files are disturbed: ' + left, show: show() };
      delete plain['other.js']; delete plain.z;
    }
    const got = Object.keys(plain);
    for (const k of got) if (!latest.has(k)) return { fail: `an entry ${JSON.stringify(k)} nobody evaluated`, show: show() };
    for (const [name, i] of latest) {
      const f = files[i], full = expect(i, {}, {}), e = expect(i, since.get(i), since.get(i).__t);
      if (!Object.prototype.hasOwnProperty.call(plain, name)) { if (live(full)) return { fail: `${JSON.stringify(name)} is not registered`, show: show() }; continue; }
      // an earlier version's entry stays when the new version does not get to register
      if (version !== null && plain[name].hash !== (f.emb || {}).hash && !live(e)) continue;
      if (f.emb && !same(maps(plain[name]), maps(f.emb))) return { fail: `the entry ${JSON.stringify(name)} does not carry the data of its file`, show: show() };
      const rep = C.R.reported(plain[name], f.src);
      const bad = x => C.R.diff(x, rep, { reportLogic: f.logic });
      const b1 = bad(e), b2 = b1.length ? bad(full) : b1;
      if (b1.length && b2.length && !(evals.get(i) > 1 && !live(e))) return { fail: `counts of ${JSON.stringify(name)}: ` + b1.slice(0, 4).map(x => JSON.stringify(x)).join('\n'), show: show() };
      if (live(full)) counted++;
    }
    // a file that was not evaluated, or whose entry belongs to another version, must not be there
    return { nontrivial: counted >= 2 || [...evals.values()].some(v => v > 1), key: show(), tags: ['files:' + n, 'evaluations:' + order.length, ...(version !== null ? ['versions'] : []), ...(other ? ['seeded'] : []), ...(files.some(f => f.lib) ? ['library'] : []), ...new Set(files.map(f => f.goal))], show: show() };
  },
};
