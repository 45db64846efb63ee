'use strict';
// Coverage objects, reference models and the command interface of the data model crate.
const { h } = require('../addon');
const run = ops => JSON.parse(h.oxide(JSON.stringify(ops)));
/** runs operations; throws on a harness problem, returns {panic} or the list of results */
function exec(ops) {
  const r = run(ops);
  if (!Array.isArray(r)) throw new Error('harness: ' + JSON.stringify(r));
  const bad = r.find(x => x && x.panic);
  if (bad) { if (/harness:/.test(bad.panic)) throw new Error(bad.panic); return { panic: bad.panic }; }
  const err = r.find(x => x && x.err);
  if (err) return { err: err.err };
  return r;
}
const TYPES = ['binary-expr', 'if', 'switch', 'cond-expr', 'default-arg'];
const NAMES = ['f', '(anonymous_0)', '', 'é中文', '"q"\\', '#p', '__proto__', 'a\u2028b', '\u0000', '😀', 'constructor'];
const PATHS = ['/src/a.js', '/src/b.js', 'C:\\proj\\a.js', '/é/中文.js', '', '__proto__', 'a b', '/src/A.js', '/src/a.js/', '"', '1', '0'];
// ---- arbitrary: a file (its possible entries) and coverage objects over it ---------------------
/** all numbers the decoder needs, as one choice list */
const choices = (fc, max) => fc.noBias(fc.array(fc.noBias(fc.nat(0xffffff)), { minLength: Math.floor(max / 2), maxLength: max, size: 'max' }));
class Ch { constructor(a) { this.a = a; this.i = 0; } n(m) { let v = 0; if (this.i < this.a.length) v = this.a[this.i++]; else if (this.rng) { let x = this.rng; x ^= x << 13; x ^= x >>> 17; x ^= x << 5; this.rng = x | 0; v = x >>> 8; } return m ? v % m : 0; } p(k) { return this.n(100) >= 100 - k; } of(l) { return l[this.n(l.length)]; } }
const R = (a, b, c, d) => ({ start: { line: a, column: b }, end: { line: c, column: d } });
/** a file: distinct statement, function and branch locations, some of them differing in one component only */
function world(c, o = {}) {
  const big = c.p(4), N = m => c.n(big ? m * 8 : m);
  // a large file: lines and columns far beyond what small programs have, some of them equal up to a power of two
  const far = c.p(6), huge = c.n(300) === 299, L = far ? [1, 128, 256, 512, 4096, 65536, 65537, 131072, 16777216] : null;
  const used = { s: new Set(), f: new Set(), b: new Set() };
  const near = [];
  const fresh = kind => {
    for (let k = 0; k < 20; k++) {
      let r;
      if (near.length && c.p(45)) { // another construct at almost the same place
        const q = near[c.n(near.length)];
        r = R(q.start.line, q.start.column, q.end.line, q.end.column);
        const w = c.n(5), d = 1 + c.n(2);
        if (w === 0) r.start.line += d; else if (w === 1) r.start.column += d; else if (w === 2) r.end.line += d; else if (w === 3) r.end.column += d; else { const t = r.start.column; r.start.column = r.end.line; r.end.line = t; }
        if (c.p(10)) { r.start.line = 1 + c.n(12); r.start.column = 1; } // 1|11.. vs 11|1..
      } else { const line = 1 + c.n(c.p(30) ? 120 : 9); const col = c.n(14); r = R(line, col, line + c.n(3), c.n(30)); }
      if (far) { const up = (p, q) => { const d = L[c.n(L.length)]; p.line = Math.min(4e9, p.line + d - 1); if (q && q.line < p.line) q.line += d - 1; }; const w = c.n(3); if (w) up(r.start, r.end); if (w === 2) { r.start.column += L[c.n(L.length - 1)]; r.end.column += L[c.n(L.length - 1)]; }
        if (near.length && c.p(30)) { // equal up to a power of two in one component
          const q = near[c.n(near.length)], d = L[1 + c.n(L.length - 1)], z = c.n(4);
          r = R(q.start.line, q.start.column, q.end.line, q.end.column);
          if (z === 0) r.end.column += d; else if (z === 1) r.end.line += d; else if (z === 2) { r.start.line += d; r.end.line += d; } else { r.start.column += d; r.end.column += d; }
        } }
      const key = JSON.stringify(r);
      if (used[kind].has(key)) continue;
      used[kind].add(key); near.push(r);
      return r;
    }
    const line = 1000 + used.s.size + used.f.size + used.b.size; const r = R(line, 0, line, 5); used[kind].add(JSON.stringify(r)); return r;
  };
  const w = { path: o.path !== undefined ? o.path : c.of(PATHS), s: [], f: [], b: [] };
  for (let i = N(9); i > 0; i--) w.s.push(fresh('s'));
  for (let i = N(5); i > 0; i--) w.f.push({ name: c.of(NAMES), decl: fresh('s'), loc: fresh('f'), line: 1 + c.n(30) });
  for (let i = N(6); i > 0; i--) {
    const type = c.of(TYPES), k = type === 'default-arg' ? 1 : type === 'switch' ? 1 + c.n(5) : 2 + (type === 'binary-expr' ? c.n(3) : 0);
    const loc = fresh('b');
    const locations = []; for (let j = 0; j < k; j++) locations.push(j && c.p(25) ? R(0, 0, 0, 0) : type === 'if' && c.p(60) && !locations.length ? loc : fresh('b'));
    if (type === 'if' && locations[0] === loc && c.p(50)) locations[1] = loc; // both sides at the if itself
    w.b.push({ type, loc, line: loc.start.line, locations, form: c.n(6) });
  }
  // hundreds of entries; the choices do not suffice for those, so that the rest is drawn from a generator seeded by one of them
  if (huge) c.rng = 1 + c.n(0xffffff);
  if (huge) for (let i = 0, k = 300 + c.n(300), step = 1 + c.n(3); i < k; i++) {
    const at = 5000 + i * step, r = R(at, i % 7, at, 20 + i % 5);
    w.s.push(r);
    if (i % 2 === 0) w.f.push({ name: 'g' + i, decl: R(at, 30, at, 31), loc: R(at, 32, at + 1, 1), line: at });
    if (i % 11) w.b.push({ type: TYPES[i % 4], loc: R(at, 40, at, 50), line: at, locations: Array.from({ length: i % 97 === 5 ? 300 : 2 }, (_, j) => R(at, 41 + j, at, 42 + j)), form: 0 });
  }
  return w;
}
const cnt = (c, o) => { const w = c.n(10); return w < 3 ? 0 : w < 8 ? c.n(7) : w < 9 ? c.n(1000) : (o.maxCount ? c.n(0xffffff) % o.maxCount : c.n(0xffffff) * 20); };
function ids(c, n) { // numbering: dense, shifted, permuted or sparse
  const w = c.n(5), list = [];
  for (let i = 0; i < n; i++) list.push(w < 2 ? i : w === 2 ? i + 1 : w === 3 ? i * 3 + 2 : n - 1 - i);
  if (w === 4 && c.p(50)) list.reverse();
  return list;
}
const shuffle = (c, l) => { l = l.slice(); for (let i = l.length - 1; i > 0; i--) { const j = c.n(i + 1); [l[i], l[j]] = [l[j], l[i]]; } return l; };
/** one run's coverage object of the file as JSON data; key order is the serialised order */
function objectOf(c, w, o = {}) {
  const part = c.n(4) === 3 ? 50 : c.n(5) === 4 ? 0 : 100;
  const sub = l => { let r = l.filter(() => part === 100 || c.n(100) < part); return c.n(3) === 2 ? shuffle(c, r) : r; };
  const d = { all: false, path: w.path, statementMap: [], fnMap: [], branchMap: [], s: [], f: [], b: [] };
  if (!o.noAll) d.all = o.all || false;
  const zero = o.zero || d.all;
  const S = sub(w.s), F = sub(w.f), B = sub(w.b);
  const si = ids(c, S.length), fi = ids(c, F.length), bi = ids(c, B.length);
  S.forEach((r, i) => { d.statementMap.push([si[i], r]); d.s.push([si[i], zero ? 0 : cnt(c, o)]); });
  F.forEach((r, i) => { d.fnMap.push([fi[i], r]); d.f.push([fi[i], zero ? 0 : cnt(c, o)]); });
  const logic = o.logic !== undefined ? o.logic : c.n(2) === 1;
  if (logic) d.bT = [];
  B.forEach((r, i) => {
    const k = o.prefix && c.p(8) ? 1 + c.n(r.locations.length) : r.locations.length;
    const e = { loc: r.loc, type: r.type, locations: r.locations.slice(0, k), line: r.line };
    if (o.forms && r.form === 1) { delete e.loc; } else if (o.forms && r.form === 2) { delete e.line; } else if (o.forms && r.form === 3) { e.line = null; } else if (o.forms && r.form === 4) e.loc = null;
    d.branchMap.push([bi[i], e]);
    d.b.push([bi[i], e.locations.map(() => zero ? 0 : cnt(c, o))]);
    if (logic && r.type === 'binary-expr' && !(o.partialLogic && c.p(15))) d.bT.push([bi[i], e.locations.map(() => zero ? 0 : cnt(c, o))]);
  });
  if (c.n(3) === 2) for (const k of ['s', 'f', 'b']) d[k] = shuffle(c, d[k]);
  if (logic && c.n(3) === 2) d.bT = shuffle(c, d.bT);
  if (o.sourceMap) d.inputSourceMap = o.sourceMap;
  return d;
}
/** JSON text with exactly this key order (JSON.stringify would sort integer keys) */
function toText(d, space = '') {
  const obj = list => '{' + list.map(([k, v]) => JSON.stringify(String(k)) + ':' + space + JSON.stringify(v)).join(',') + '}';
  const parts = [];
  for (const [k, v] of Object.entries(d)) {
    if (v === undefined) continue;
    parts.push(JSON.stringify(k) + ':' + space + (['statementMap', 'fnMap', 'branchMap', 's', 'f', 'b', 'bT'].includes(k) ? obj(v) : JSON.stringify(v)));
  }
  return '{' + parts.join(',' + space) + '}';
}
// ---- reference model: maps keyed by source location ------------------------------------------------
const key = r => [r.start, r.end].map(p => `${(p && p.line) || 0}:${(p && p.column) || 0}`).join('-');
const nloc = r => r ? key(r) : null;
/** parsed JSON data (or the pair-list form) to the keyed form */
function canon(d) {
  const list = v => Array.isArray(v) ? v : Object.entries(v || {});
  const get = v => new Map(list(v).map(([k, x]) => [String(k), x]));
  const out = { all: !!d.all, path: d.path, s: new Map(), f: new Map(), b: new Map(), t: d.bT ? new Map() : null, problems: [], ism: d.inputSourceMap };
  const S = get(d.s), F = get(d.f), B = get(d.b), T = d.bT ? get(d.bT) : new Map();
  const check = (a, b, what) => { if ([...a.keys()].sort().join() !== [...b.keys()].sort().join()) out.problems.push(`${what}: map and counts have different ids`); };
  const sm = get(d.statementMap), fm = get(d.fnMap), bm = get(d.branchMap);
  check(sm, S, 'statements'); check(fm, F, 'functions'); check(bm, B, 'branches');
  const put = (m, k, v) => { if (m.has(k)) out.problems.push('two entries at ' + k); m.set(k, v); };
  for (const [id, r] of sm) put(out.s, key(r), S.get(id));
  for (const [id, r] of fm) put(out.f, key(r.loc), { n: F.get(id), name: r.name, decl: key(r.decl), line: r.line });
  for (const [id, r] of bm) {
    const k = key(r.locations[0]), counts = B.get(id) || [];
    if (counts.length !== r.locations.length) out.problems.push(`branch ${k}: ${counts.length} counts for ${r.locations.length} locations`);
    put(out.b, k, { n: counts.slice(), type: r.type, locations: r.locations.map(key), loc: nloc(r.loc), line: r.line == null ? null : r.line });
    if (T.has(id)) put(out.t, k, T.get(id).slice());
  }
  for (const id of T.keys()) if (!bm.has(id)) out.problems.push('truthiness counts of unknown branch ' + id);
  return out;
}
const clone = m => ({ ...m, s: new Map(m.s), f: new Map([...m.f].map(([k, v]) => [k, { ...v }])), b: new Map([...m.b].map(([k, v]) => [k, { ...v, n: v.n.slice() }])), t: m.t && new Map([...m.t].map(([k, v]) => [k, v.slice()])), problems: m.problems.slice() });
const addv = (a, b) => { const r = []; for (let i = 0; i < Math.max(a.length, b.length); i++) r.push((a[i] || 0) + (b[i] || 0)); return r; };
/** what merging b into a must give */
function merge(a, b) {
  if (b.all) return clone(a);
  if (a.all) return clone(b);
  const r = clone(a);
  for (const [k, n] of b.s) r.s.set(k, (r.s.get(k) || 0) + n);
  for (const [k, v] of b.f) if (r.f.has(k)) r.f.get(k).n += v.n; else r.f.set(k, { ...v });
  for (const [k, v] of b.b) {
    const e = r.b.get(k);
    if (!e) { r.b.set(k, { ...v, n: v.n.slice() }); continue; }
    if (v.locations.length > e.locations.length) e.locations = v.locations;
    e.n = addv(e.n, v.n);
  }
  if (b.t) { r.t = r.t || new Map(); for (const [k, v] of b.t) r.t.set(k, addv(r.t.get(k) || [], v)); }
  return r;
}
const sorted = m => [...m].sort((a, b) => (a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : 0));
/** truthiness counts padded to the paths of their branch */
const tOf = m => m.t && sorted(m.t).map(([k, v]) => [k, addv(v, ((m.b.get(k) || {}).locations || []).map(() => 0))]);
/** comparable text; parts: subset of fields */
function text(m, o = {}) {
  const r = { all: m.all, path: m.path, s: sorted(m.s), f: sorted(m.f), b: sorted(m.b).map(([k, v]) => [k, { n: v.n, type: v.type, locations: v.locations, loc: v.loc, line: v.line }]) };
  if (o.truthy !== false) r.t = tOf(m);
  return JSON.stringify(r);
}
function firstDifference(a, b) { let i = 0; while (i < a.length && a[i] === b[i]) i++; return `expected …${a.slice(Math.max(0, i - 80), i + 120)}… got …${b.slice(Math.max(0, i - 80), i + 120)}…`; }
// ---- reports -----------------------------------------------------------------------------------------
const pctOf = (c, t) => t === 0 ? 100 : Math.fround(Number(BigInt(c) * 10000n / BigInt(t)) / 100);
function lines(d) { // d: pair-list or JSON form
  const list = v => Array.isArray(v) ? v : Object.entries(v || {});
  const sm = new Map(list(d.statementMap).map(([k, v]) => [String(k), v])); const m = new Map();
  for (const [k, n] of list(d.s)) { const l = sm.get(String(k)).start.line || 0; m.set(l, Math.max(m.has(l) ? m.get(l) : 0, n)); }
  return m;
}
function branchLines(d) {
  const list = v => Array.isArray(v) ? v : Object.entries(v || {});
  const B = new Map(list(d.b).map(([k, v]) => [String(k), v])); const m = new Map();
  for (const [k, e] of list(d.branchMap)) { const l = e.line != null ? e.line : e.loc.start.line || 0; if (!m.has(l)) m.set(l, []); m.get(l).push(...B.get(String(k))); }
  return new Map([...m].map(([l, v]) => [l, [v.filter(x => x > 0).length, v.length]]));
}
function summary(d) {
  const list = v => Array.isArray(v) ? v : Object.entries(v || {});
  const tot = l => [l.length, l.filter(x => x > 0).length, 0, pctOf(l.filter(x => x > 0).length, l.length)];
  return { lines: tot([...lines(d).values()]), statements: tot(list(d.s).map(x => x[1])), functions: tot(list(d.f).map(x => x[1])), branches: tot(list(d.b).flatMap(x => x[1])), branchesTrue: d.bT ? tot(list(d.bT).flatMap(x => x[1])) : null };
}
const FIELDS = ['lines', 'statements', 'functions', 'branches', 'branchesTrue'];
const ASSUME = ['coverage objects as instrumenters write them: locations are distinct within one object, every branch has at least one path, all sums stay below 2^32', 'truthiness counts refer to logical-expression branches'];
module.exports = { run, exec, Ch, choices, world, objectOf, toText, canon, merge, clone, text, firstDifference, key, lines, branchLines, summary, pctOf, FIELDS, PATHS, NAMES, TYPES, ASSUME, shuffle, R };
