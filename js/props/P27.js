'use strict';
const O = require('./_oxide');
const C = require('../case');
const NM = process.env.VERIF_NODE_MODULES || '/opt/veriftools/node/node_modules';
const { createInstrumenter } = require(NM + '/istanbul-lib-instrument');
const { createFileCoverage } = require(NM + '/istanbul-lib-coverage');
const P = p => ({ line: (p && p.line) || 0, column: (p && p.column) || 0 });
const L = l => l ? { start: P(l.start), end: P(l.end) } : null;
const own = (v, f) => { const o = {}; for (const [k, x] of Array.isArray(v) ? v : Object.entries(v)) Object.defineProperty(o, String(k), { value: f(x), enumerable: true }); return o; };
function sm(m) { const r = { version: m.version === undefined ? 3 : m.version, sources: m.sources || [], names: m.names || [], mappings: m.mappings || '' }; for (const k of ['file', 'sourceRoot', 'sourcesContent']) if (m[k] != null) r[k] = m[k]; return sort(r); }
const sort = o => Object.fromEntries(Object.keys(o).sort().map(k => [k, o[k]]));
/** what the text says, optional parts made explicit */
function normal(d) {
  return JSON.stringify({
    all: !!d.all, path: d.path, statementMap: own(d.statementMap, L), fnMap: own(d.fnMap, f => ({ name: f.name, decl: L(f.decl), loc: L(f.loc), line: f.line })),
    branchMap: own(d.branchMap, b => ({ loc: L(b.loc), type: b.type, locations: b.locations.map(L), line: b.line == null ? null : b.line })),
    s: own(d.s, x => x), f: own(d.f, x => x), b: own(d.b, x => x), bT: d.bT == null ? null : own(d.bT, x => x), inputSourceMap: d.inputSourceMap == null ? null : sm(d.inputSourceMap),
  });
}
const TOP = ['all', 'path', 'statementMap', 'fnMap', 'branchMap', 's', 'f', 'b', 'bT', 'inputSourceMap'];
function shape(d) {
  const bad = [];
  for (const k of Object.keys(d)) if (!TOP.includes(k)) bad.push('unknown field ' + k);
  for (const k of TOP.slice(0, 8)) if (!(k in d)) bad.push('field ' + k + ' is missing');
  for (const b of Object.values(d.branchMap)) { const x = Object.keys(b).filter(k => !['loc', 'type', 'locations', 'line'].includes(k)); if (x.length) bad.push('branch has ' + x); if (!O.TYPES.includes(b.type)) bad.push('branch type ' + b.type); }
  for (const f of Object.values(d.fnMap)) if (Object.keys(f).sort().join() !== 'decl,line,loc,name') bad.push('function has ' + Object.keys(f));
  for (const s of Object.values(d.statementMap)) if (Object.keys(s).sort().join() !== 'end,start' || Object.keys(s.start).sort().join() !== 'column,line') bad.push('location shape');
  const m = d.inputSourceMap;
  if (m) {
    if (typeof m.version !== 'number' || typeof m.mappings !== 'string' || !Array.isArray(m.sources) || !Array.isArray(m.names)) bad.push('source map without version, sources, names or mappings: ' + Object.keys(m));
    const x = Object.keys(m).filter(k => !['version', 'file', 'sourceRoot', 'sources', 'sourcesContent', 'names', 'mappings'].includes(k)); if (x.length) bad.push('source map has ' + x);
  }
  try { createFileCoverage({ ...d, path: d.path || 'x' }).toSummary(); } catch (e) { bad.push('not accepted by istanbul-lib-coverage: ' + e.message); }
  return bad;
}
const STR = ['', 'a.js', '../é/中.ts', 'webpack://x/./y', '"', '\\', '\u2028', '\u0000', '😀', '\ud800'.toWellFormed(), 'a\nb'];
const MAPPINGS = ['', 'AAAA', ';;AAAA,CAAC;;', 'AAAA;'.repeat(40), '\u2028"', 'gggggggggggB'];
/** a source map with any subset of the optional parts */
function sourceMap(ch) {
  const m = {};
  const n = ch.n(4), strs = () => Array.from({ length: ch.n(4) }, () => ch.of(STR));
  if (ch.n(8) < 7) m.version = 3;
  if (n & 1) m.file = ch.of(STR);
  if (n & 2) m.sourceRoot = ch.of(STR);
  m.sources = strs(); m.names = strs(); m.mappings = ch.of(MAPPINGS);
  if (ch.n(3)) m.sourcesContent = m.sources.map(() => ch.n(3) === 2 ? null : ch.of(STR));
  return m;
}
module.exports = {
  id: 'P27', sourceMap, sm, STR, normal,
  quick: { cases: 20000 }, thorough: { cases: 900000 },
  rule: 'Coverage JSON of generated objects (odd names and paths, large numbers, every optional field present, null or absent, unknown extra fields, any key order and white space) and coverage written by istanbul-lib-instrument and by this instrumenter for generated programs; read, written, read again, compared as data with the text that was read, and shown to istanbul-lib-coverage; non-trivial = at least one statement, function and branch.',
  assumptions: ['numbers are integers below 2^32; positions are present or, as Istanbul writes a missing else, absent', 'input source maps are standard version 3 maps with string sources'],
  gen: fc => {
    const nat = fc.noBias(fc.nat(0xffffff));
    return fc.oneof({ weight: 5, arbitrary: fc.record({ ch: O.choices(fc, 400) }) }, { weight: 1, arbitrary: fc.record({ prog: fc.noBias(fc.array(nat, { minLength: 20, maxLength: 400, size: 'max' })), tool: fc.noBias(fc.nat(1)), logic: fc.boolean(), ch: O.choices(fc, 40) }) });
  },
  run(c) {
    const ch = new O.Ch(c.ch);
    let d, text;
    if (c.prog) {
      const { src } = C.build({ prog: c.prog, layout: [], goal: 'module' });
      const inputSourceMap = ch.n(3) === 2 ? sourceMap(ch) : undefined;
      if (inputSourceMap) inputSourceMap.version = 3;
      if (c.tool === 0) {
        const ins = createInstrumenter({ esModules: true, reportLogic: c.logic, compact: false });
        try { ins.instrumentSync(src.code, ch.of(O.PATHS) || 'x', inputSourceMap); } catch (e) { return { discard: 'istanbul-lib-instrument: ' + String(e.message).slice(0, 40) }; }
        d = ins.lastFileCoverage();
      } else {
        const r = C.instrument(src.code, { goal: 'module', filename: ch.of(O.PATHS), options: { reportLogic: c.logic, inputSourceMap } });
        d = r.ok && C.embedded(r.code);
        if (!d) return { discard: 'not instrumented' };
      }
      for (const m of [d.s, d.f]) for (const k of Object.keys(m)) m[k] = ch.n(4) ? ch.n(9) : 0xffffffff;
      text = JSON.stringify(d);
    } else {
      const w = O.world(ch);
      d = O.objectOf(ch, w, { forms: true, prefix: true, noAll: ch.n(3) === 0, all: ch.p(10) });
      if (ch.n(3) === 2) d.inputSourceMap = sourceMap(ch);
      // absent positions
      if (ch.n(4) === 3) for (const [, b] of d.branchMap) if (b.type === 'if' && b.locations[1]) b.locations[1] = ch.n(2) ? { start: {}, end: {} } : { start: { line: 3 }, end: { line: 3, column: 1 } };
      if (ch.n(3) === 2) { d._coverageSchema = '1a1c01bbd47fc00a2c39e90264f33305004495a9'; d.hash = '11020577277169172593'; }
      if (ch.n(4) === 3) d.contentHash = { a: [1, null] };
      if (ch.n(4) === 3) { const ks = O.shuffle(ch, Object.keys(d)), x = {}; for (const k of ks) x[k] = d[k]; d = x; }
      if (d.all === false && ch.n(2)) delete d.all;
      if (ch.n(4) === 3) d.path = ch.of(STR);
      text = O.toText(d, ch.n(3) === 2 ? ' \n\t' : '');
    }
    const r = O.exec([{ op: 'parse', text }, { op: 'dump', a: 0 }]);
    if (r.panic) return { fail: 'panic: ' + r.panic, show: text };
    if (r.err) return { fail: 'coverage JSON is not read: ' + r.err, show: text };
    const data = JSON.parse(r[1]);
    const bad = shape(data);
    if (bad.length) return { fail: bad.slice(0, 4).join('; '), show: text + '\n' + r[1] };
    const e = normal(d), g = normal(data);
    if (e !== g) return { fail: 'reading and writing changes the data: ' + O.firstDifference(e, g), show: text + '\n' + r[1] };
    const q = O.exec([{ op: 'parse', text }, { op: 'parse', text: r[1] }, { op: 'eq', a: 0, b: 1 }, { op: 'dump', a: 1 }]);
    if (q.panic || q.err) return { fail: 'what was written is not read: ' + (q.panic || q.err), show: r[1] };
    if (q[2] !== true || q[3] !== r[1]) return { fail: 'what was written reads back different', show: r[1] + '\n' + q[3] };
    const n = x => Array.isArray(x) ? x.length : Object.keys(x).length;
    return { nontrivial: n(d.s) > 0 && n(d.f) > 0 && n(d.b) > 0, key: text, tags: [c.prog ? ['istanbul-lib-instrument', 'this instrumenter'][c.tool] : 'generated', d.bT ? 'logic' : 'plain', ...(d.inputSourceMap ? ['sourceMap'] : [])], show: text };
  },
};
