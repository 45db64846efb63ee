'use strict';
const { h, transform } = require('../addon');
const O = require('./_oxide');
const { sourceMap, normal } = require('./P27');
const C = require('../case');
const { sourceArb, render } = require('./_src');
const FILES = ['/v/f.js', '', '*/', 'a*/b', '"\\\n', '中文/é.ts', '😀', '__proto__', 'C:\\x\\y.js', '\u2028', '/a b/</script>', '\u0000', '${x}`'];
const SCHEMA = '11020577277169172593';
function parse(code, goal, cjs) { return C.acorn.parse(code, { ecmaVersion: 'latest', sourceType: goal === 'module' && !cjs ? 'module' : 'script', allowReturnOutsideFunction: true, allowHashBang: true }); }
/** small changes: [what, change of {code, filename, options}] */
const VARIANTS = [
  ['same', r => r], ['again', r => JSON.parse(JSON.stringify(r))],
  ['filename', r => ({ ...r, filename: r.filename + 'x' })], ['filename2', r => ({ ...r, filename: r.filename + ' ' })],
  ['shift', r => ({ ...r, code: '\n' + r.code })], ['column', r => ({ ...r, code: ';' + r.code })],
  ['more', r => ({ ...r, code: r.code + '\nvoid 0;' })], ['logic', r => ({ ...r, options: { ...r.options, reportLogic: !r.options.reportLogic } })],
  ['noMap', r => ({ ...r, options: { ...r.options, inputSourceMap: null } })], ['emptyMap', r => ({ ...r, options: { ...r.options, inputSourceMap: { version: 3, sources: [], names: [], mappings: '' } } })],
  ['map1', r => ({ ...r, options: { ...r.options, inputSourceMap: { version: 3, sources: ['a'], names: [], mappings: '' } } })], ['map2', r => ({ ...r, options: { ...r.options, inputSourceMap: { version: 3, sources: [], names: ['a'], mappings: '' } } })],
  ['content1', r => ({ ...r, options: { ...r.options, inputSourceMap: { version: 3, sources: [''], sourcesContent: [null], names: [], mappings: '' } } })], ['content2', r => ({ ...r, options: { ...r.options, inputSourceMap: { version: 3, sources: [''], sourcesContent: [''], names: [], mappings: '' } } })], ['content3', r => ({ ...r, options: { ...r.options, inputSourceMap: { version: 3, sources: [''], sourcesContent: [], names: [], mappings: '' } } })],
  ['variable', r => ({ ...r, options: { ...r.options, coverageVariable: 'other' } })], ['compact', r => ({ ...r, options: { ...r.options, compact: !r.options.compact } })], ['log', r => ({ ...r, options: { ...r.options, instrumentLog: { level: 'info', enableTrace: true } } })],
];
function facts(q) {
  const r = JSON.parse((q.deep ? h.transformDeep : h.transform)(q.code, JSON.stringify({ filename: q.filename, syntax: q.syntax, goal: q.goal, ...q.req, cjs: q.cjs, options: JSON.stringify(q.options) })));
  if (!r.ok) return { discard: 'not emitted: ' + r.kind };
  let ast; try { ast = parse(r.code, q.goal, q.cjs); } catch (e) { return { discard: 'output does not parse (P02)' }; }
  const data = C.dataObject(ast);
  if (!data) return { none: true, notes: r.notes, code: r.code };
  const vars = {}; C.walk.full(ast, n => { if (n.type === 'VariableDeclarator' && n.id.type === 'Identifier' && n.init && n.init.type === 'Literal' && ['path', 'hash', 'gcv'].includes(n.id.name) && vars[n.id.name] === undefined) vars[n.id.name] = n.init.value; });
  return { data, notes: r.notes, code: r.code, vars };
}
const show = q => `--- ${q.goal} ${q.syntax} ${JSON.stringify(q.filename)} ${JSON.stringify(q.options)}\n${q.code.slice(0, 2500)}`;
/** every kind of coverage data of one output must be the same */
function one(q, f) {
  const d = f.data;
  if (d._coverageSchema !== SCHEMA) return 'the schema marker is ' + d._coverageSchema;
  if (typeof d.hash !== 'string' || !/^\d+$/.test(d.hash)) return 'the embedded hash is ' + JSON.stringify(d.hash);
  if (d.path !== q.filename) return `embedded path is ${JSON.stringify(d.path)}`;
  if (f.vars.path !== undefined && f.vars.path !== q.filename) return `registers under ${JSON.stringify(f.vars.path)}`;
  if (f.vars.hash !== undefined && f.vars.hash !== d.hash) return 'compares with another hash than the embedded one';
  const ism = q.options.inputSourceMap == null ? null : q.options.inputSourceMap;
  const want = JSON.parse(normal({ ...d, inputSourceMap: ism })).inputSourceMap, got = JSON.parse(normal(d)).inputSourceMap;
  if (JSON.stringify(want) !== JSON.stringify(got)) return `input source map: given ${JSON.stringify(ism)} embedded ${JSON.stringify(d.inputSourceMap)}`;
  if (!q.options.debugInitialCoverageComment) return f.notes.length ? 'a debug comment nobody asked for' : null;
  if (f.notes.length !== 1) return `${f.notes.length} debug comments`;
  if (f.notes[0].includes('*/')) return 'the debug comment ends early';
  let note; try { note = JSON.parse(f.notes[0]); } catch (e) { return 'the debug comment is not JSON: ' + e.message; }
  const a = normal(d), b = normal(note);
  if (a !== b) return 'debug comment and embedded data differ: ' + O.firstDifference(a, b);
  const r = O.exec([{ op: 'parse', text: f.notes[0] }, { op: 'parse', text: JSON.stringify(d) }, { op: 'eq', a: 0, b: 1 }, { op: 'dump', a: 0 }, { op: 'dump', a: 1 }]);
  if (r.panic || r.err) return 'the data model does not read the data: ' + (r.panic || r.err);
  if (normal(JSON.parse(r[3])) !== a) return 'read by the data model: ' + O.firstDifference(a, normal(JSON.parse(r[3])));
  // JSON.parse orders integer keys, so compare the content
  if (normal(JSON.parse(r[4])) !== a) return 'embedded data read by the data model: ' + O.firstDifference(a, normal(JSON.parse(r[4])));
  return null;
}
module.exports = {
  id: 'P15',
  quick: { cases: 14000 }, thorough: { cases: 400000 },
  rule: 'Sources of P02 with odd filenames, source maps (any subset of parts, null contents), reportLogic and debug comment; embedded data, debug comment, and both read and written by the data model compared as data; each with 2-4 small variants of source, filename, options or source map whose hashes must be equal exactly when their data are; non-trivial = at least 3 entries and a source map or debug comment.',
  assumptions: ['the debug comment is observed in the comment table handed to the compiler, where the instrumenter puts it', 'input source maps are standard version 3 maps with string sources'],
  gen: fc => fc.record({ src: sourceArb(fc, { env: true, maxDepth: 30 }), ch: fc.noBias(fc.array(fc.noBias(fc.nat(0xffffff)), { minLength: 30, maxLength: 80, size: 'max' })) }),
  run(c) {
    const ch = new O.Ch(c.ch), s = render(c.src);
    const options = { reportLogic: ch.n(2) === 1, debugInitialCoverageComment: ch.n(4) > 0 };
    if (ch.n(3)) { options.inputSourceMap = sourceMap(ch); if (ch.n(4) === 3) options.inputSourceMap.sourcesContent = [s.code, '*/ "</script>"'].slice(0, ch.n(3)); }
    const base = { code: s.code, filename: ch.of(FILES), syntax: s.syntax, goal: s.goal, req: s.req, cjs: s.goal === 'module' && ch.n(2) === 1, deep: s.deep, options };
    const f0 = facts(base);
    if (f0.discard) return { discard: f0.discard };
    if (f0.none) return { discard: 'no coverage emitted' };
    const bad = one(base, f0);
    if (bad) return { fail: bad, show: show(base) + '\n--- emitted\n' + f0.code.slice(0, 6000) };
    // the comment does not change the code
    const plain = { ...base, options: { ...options, debugInitialCoverageComment: !options.debugInitialCoverageComment } }, fp = facts(plain);
    if (!fp.discard && fp.code !== f0.code) { const strip = t => t.replace(/\/\*__coverage_data_json_comment__[\s\S]*?\*\/ ?/g, ''); if (strip(fp.code) !== strip(f0.code)) return { fail: 'the debug comment changes the code', show: show(base) }; }
    const seen = [[base, f0]];
    for (let i = 2 + ch.n(3); i > 0; i--) {
      const [, change] = VARIANTS[ch.n(VARIANTS.length)];
      const q = change(ch.n(2) ? base : seen[ch.n(seen.length)][0]), f = facts(q);
      if (f.discard || f.none) continue;
      const b2 = one(q, f);
      if (b2) return { fail: b2, show: show(q) };
      seen.push([q, f]);
    }
    for (let i = 0; i < seen.length; i++) for (let j = 0; j < i; j++) {
      const a = normal(seen[i][1].data), b = normal(seen[j][1].data), ha = seen[i][1].data.hash, hb = seen[j][1].data.hash;
      if (a === b && ha !== hb) return { fail: 'equal data with different hashes', show: show(seen[i][0]) + '\n' + show(seen[j][0]) };
      if (a !== b && ha === hb) return { fail: 'different data with one hash: ' + O.firstDifference(a, b), show: show(seen[i][0]) + '\n' + show(seen[j][0]) };
    }
    const d = f0.data, n = Object.keys(d.s).length + Object.keys(d.f).length + Object.keys(d.b).length;
    return { nontrivial: n >= 3 && (!!options.inputSourceMap || options.debugInitialCoverageComment), key: s.code + JSON.stringify(options), tags: [s.goal, ...s.tags, ...Object.keys(options).filter(k => options[k])], show: s.code };
  },
};
