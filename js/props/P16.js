'use strict';
const { h } = require('../addon');
const { Ch } = require('./_oxide');
const { sourceMap, sm } = require('./P27');
const C = require('../case');
const VARS = ['__coverage__', '', 'x', '__cov"é\\', 'a.b', '中文', '\u2028', '😀', '0', 'constructor', "it's", '*/', '\u0000'];
const METHODS = ['foo', 'constructor', '', '中文', '#p', 'a b', '"', 'get', 'a.*'];
const LEVELS = ['error', 'debug', 'info', 'warn', 'trace', 'INFO', '', 'nonsense', null];
const GLOBS = ['**/*.js', '', '[', '**/node_modules/**', 'C:\\x\\*', '{a,b}', 'é'];
const UNKNOWN = [['foo', 1], ['coverage_variable', 'wrong'], ['report_logic', true], ['Compact', true], ['esModules', false], ['parserPlugins', ['jsx']], ['cwd', '/x'], ['exclude', ['**']], ['é', { a: [null, { b: 1e300 }] }], ['', ''], ['instrumentlog', { level: 'info' }], ['unstable_exclude', ['**']], ['debugInitialCoverageCommentX', true], ['preserveComments', true]];
const DEFAULTS = { coverageVariable: '__coverage__', compact: false, reportLogic: false, ignoreClassMethods: [], inputSourceMap: null, instrumentLog: { level: null, enableTrace: false }, debugInitialCoverageComment: false, unstableExclude: null };
const PROGRAM = 'class A { foo() { return 1; } bar() { return a && b; } }\nvar x = a || b;\n';
/** JSON text with random escapes and white space */
function write(v, ch, esc) {
  if (typeof v === 'string') return esc ? '"' + [...v].map(c => ch.n(3) === 2 || c === '"' || c === '\\' || c < ' ' ? c.split('').map(u => '\\u' + u.charCodeAt(0).toString(16).padStart(4, '0')).join('') : c).join('') + '"' : JSON.stringify(v);
  const w = () => [' ', '', '', '\n', '\t'][ch.n(5)];
  if (Array.isArray(v)) return '[' + w() + v.map(x => write(x, ch, esc)).join(',' + w()) + w() + ']';
  if (v && typeof v === 'object') return '{' + w() + Object.entries(v).map(([k, x]) => write(k, ch, esc) + w() + ':' + w() + write(x, ch, esc)).join(',' + w()) + w() + '}';
  return JSON.stringify(v);
}
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
module.exports = {
  id: 'P16',
  quick: { cases: 40000 }, thorough: { cases: 800000 },
  rule: 'Option texts with every subset of the known fields (values from small odd pools, source maps with any subset of their parts, null for optional fields), 0-3 unknown or misspelt fields, any order, white space and escapes; read back value by value, written and read again, and observed on an instrumented program (variable name, truthiness counters, ignored methods, source map, debug comment); non-trivial = at least two fields given and two omitted.',
  assumptions: ['fields hold values of their documented type (null also for the optional ones)'],
  gen: fc => fc.record({ ch: fc.noBias(fc.array(fc.noBias(fc.nat(0xffffff)), { minLength: 20, maxLength: 80, size: 'max' })) }),
  run(c) {
    const ch = new Ch(c.ch), given = {}, want = JSON.parse(JSON.stringify(DEFAULTS));
    const mask = ch.n(256);
    const b = () => ch.n(2) === 1, list = pool => Array.from({ length: ch.n(4) }, () => ch.of(pool));
    if (mask & 1) want.coverageVariable = given.coverageVariable = ch.of(VARS);
    if (mask & 2) want.compact = given.compact = b();
    if (mask & 4) want.reportLogic = given.reportLogic = b();
    if (mask & 8) want.ignoreClassMethods = given.ignoreClassMethods = list(METHODS);
    if (mask & 16) { const m = ch.n(6) === 5 ? null : sourceMap(ch); given.inputSourceMap = m && ch.n(3) === 2 ? { ...m, ignoreList: [0], x_facebook_sources: null } : m; want.inputSourceMap = m; }
    if (mask & 32) { const l = {}; if (ch.n(3)) want.instrumentLog.level = l.level = ch.of(LEVELS); if (ch.n(3)) want.instrumentLog.enableTrace = l.enableTrace = b(); if (ch.n(5) === 4) l.other = 1; given.instrumentLog = l; }
    if (mask & 64) want.debugInitialCoverageComment = given.debugInitialCoverageComment = b();
    if (mask & 128) want.unstableExclude = given.unstableExclude = ch.n(6) === 5 ? null : list(GLOBS);
    let entries = Object.entries(given);
    for (let i = ch.n(4); i > 0; i--) { const u = ch.of(UNKNOWN); if (!entries.some(e => e[0] === u[0])) entries.push(u); }
    if (ch.n(2)) for (let i = entries.length - 1; i > 0; i--) { const j = ch.n(i + 1); [entries[i], entries[j]] = [entries[j], entries[i]]; }
    const text = write(Object.fromEntries(entries), ch, ch.n(2) === 1);
    const r = JSON.parse(h.optionsRoundtrip(text));
    if (!r.ok) return { fail: `options are not read (${r.kind}): ${r.message}`, show: text };
    for (const k of Object.keys(want)) {
      const e = k === 'inputSourceMap' ? want[k] && sm(want[k]) : want[k], g = k === 'inputSourceMap' ? r.value[k] == null ? null : sm(r.value[k]) : r.value[k];
      if (!same(e, k === 'instrumentLog' ? { level: g && g.level, enableTrace: g && g.enableTrace } : g === undefined ? null : g)) return { fail: `${k}: given ${JSON.stringify(given[k])}, read as ${JSON.stringify(g)}`, show: text };
    }
    if (!r.stable) return { fail: 'options written back and read again differ', show: text + '\n' + JSON.stringify(r.value) };
    // effects
    const t = C.instrument(PROGRAM, { goal: 'script', filename: '/f.js', options: text });
    if (!t.ok) return { fail: 'instrumentation fails with these options: ' + t.message, show: text };
    let ast; try { ast = C.acorn.parse(t.code, { ecmaVersion: 'latest' }); } catch (e) { return { discard: 'output does not parse (P02)' }; }
    const d = C.dataObject(ast);
    if (!d) return { fail: 'not instrumented', show: text };
    const vars = {}; C.walk.full(ast, n => { if (n.type === 'VariableDeclarator' && n.init && n.init.type === 'Literal') vars[n.id.name] = n.init.value; });
    if (vars.gcv !== want.coverageVariable) return { fail: `registers under ${JSON.stringify(vars.gcv)} instead of ${JSON.stringify(want.coverageVariable)}`, show: text };
    const lb = Object.keys(d.branchMap).filter(k => d.branchMap[k].type === 'binary-expr');
    if (lb.length !== 2 || !same(Object.keys(d.bT || {}), want.reportLogic ? lb : [])) return { fail: `reportLogic ${want.reportLogic}: truthiness counters ${JSON.stringify(d.bT)}`, show: text };
    const fns = Object.values(d.fnMap).map(f => f.name), ef = ['foo', 'bar'].filter(n => !want.ignoreClassMethods.includes(n));
    if (!same(fns, ef)) { if (lb.length === 2) return { fail: `ignoreClassMethods ${JSON.stringify(want.ignoreClassMethods)}: functions reported are ${fns}`, show: text }; }
    if (!same(d.inputSourceMap == null ? null : sm(d.inputSourceMap), want.inputSourceMap && sm(want.inputSourceMap))) return { fail: 'the input source map given is not the one embedded', show: text + '\n' + JSON.stringify(d.inputSourceMap) };
    if ((t.notes.length === 1) !== want.debugInitialCoverageComment) return { fail: 'debug comment ' + (want.debugInitialCoverageComment ? 'missing' : 'not asked for'), show: text };
    const n = Object.keys(given).length;
    return { nontrivial: n >= 2 && n <= 6, key: text, tags: ['fields:' + n, ...Object.keys(given)], show: text };
  },
};
