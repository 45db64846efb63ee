'use strict';
const { runPlugin } = require('../plugin');
const { sourceArb, render } = require('./_src');
const { Choices } = require('../gen');
const NAMES = ['a.js', '/src/a.js', 'C:\\src\\a.js', '', 'é中😀.ts', 'a"b\'c\\', 'a\nb', 'a\u2028', '*/', 'unknown.js', '__coverage__', 'constructor', ' ', '\ufeff', '\0', '<anon>', '/src/../a.js', '${x}', 'x'.repeat(300)];
const VARS = ['__coverage__', '', 'x', 'a"b', '\u2028', '😀', "'", '\\', 'a\nb'];
const BAD = ['', ' ', '{', '[]', 'null', '"x"', '1', 'true', '{"reportLogic":1}', '{"reportLogic":true,}', '{"coverageVariable":null}', '{"coverageVariable":1}', '{"reportLogic":true,"reportLogic":true}', '{"ignoreClassMethods":"m"}', '{"inputSourceMap":{"version":3}}', '{"inputSourceMap":[]}', '{"instrumentLog":true}', '{"instrumentLog":{"level":1}}', '{"unstableExclude":"**"}', '{"compact":"yes","reportLogic":true}', "{'reportLogic':true}", '{"reportLogic":true} x', '{"coverageVariable":"\\ud800"}', '// c\n{}', '\ufeff{}', '{"debugInitialCoverageComment":true,"unstableExclude":{}}', 'undefined', '{"reportLogic":"true"}'];
function optionText(c) {
  const k = c.n(10);
  if (k === 0) return null;
  if (k === 1) return '{}';
  if (k === 2) return c.of(BAD);
  const o = {};
  if (c.p(40)) o.coverageVariable = c.of(VARS);
  if (c.p(40)) o.compact = c.p(50);
  if (c.p(60)) o.reportLogic = c.p(70);
  if (c.p(40)) o.ignoreClassMethods = c.of([[], ['m'], ['m0', 'm1', 'constructor'], ['render', 'b', 'get', '#p', 'm2']]);
  if (c.p(30)) o.inputSourceMap = c.of([null, { version: 3, sources: ['a.ts'], names: [], mappings: 'AAAA' }, { version: 3, file: 'é"\n', sourceRoot: '', sources: ['', 'x'], sourcesContent: ['"\\\u2028', null], names: ['q'], mappings: ';;A' }]);
  if (c.p(20)) o.instrumentLog = c.of([{}, { level: 'error' }, { level: 'info', enableTrace: true }, { level: 'nope' }, { level: null }, { level: 'trace' }, { enableTrace: true }]);
  if (c.p(50)) o.debugInitialCoverageComment = c.p(70);
  if (c.p(15)) o.unstableExclude = c.of([null, ['no-such-file/**'], ['['], ['**/*.nothing', '*.no']]);
  if (c.p(15)) o.whatever = [{ a: 1 }];
  return JSON.stringify(o);
}
module.exports = {
  id: 'P18',
  quick: { cases: 18000 }, thorough: { cases: 400000 },
  rule: 'Sources of every kind (IR programs with hints, TypeScript / JSX / rare-syntax templates with generated holes, token mutants, degenerate texts) with a random or missing filename, option texts that are missing, empty, of every subset of fields, or malformed in 28 ways, with and without the host\'s comment table, sometimes positioned after other files; the compiled plugin (wasm, fresh instance per file) runs in a host that answers its calls, and the program and comment table it leaves are compared node by node, position and hygiene context included, with the library pass on the same input; non-trivial = the pass changes the program.',
  assumptions: ['the plugin is run in a host that answers its calls as swc\'s plugin runner does', 'the library pass is given the documented defaults (unknown.js, default options) where the plugin was given none or malformed ones', 'source nesting within the 1 MB stack of the plugin'],
  gen: fc => fc.record({ src: sourceArb(fc, { env: true, deep: 0 }), arr: fc.noBias(fc.array(fc.nat(0xffffff), { minLength: 4, maxLength: 24, size: 'max' })) }),
  run(q) {
    const c = new Choices(q.arr), s = render(q.src);
    const comments = !c.p(12), options = optionText(c), filename = c.p(15) ? undefined : c.of(NAMES), before = c.p(30) ? ['x;\n', '// é\n\n'] : [];
    const r = runPlugin(s.code, { syntax: s.syntax, goal: s.goal, ...s.req, filename, options, comments, before });
    const show = () => `--- source (${s.goal}, ${s.syntax})\n${s.code.slice(0, 3000)}\n--- filename ${JSON.stringify(filename)} comments ${comments} options ${options}\n`;
    if (r.rejected) return { discard: 'not parsed: ' + r.rejected.split(':')[0] };
    if (r.libraryFailed) return { discard: 'the library pass fails (P02)' };
    if (r.failed) return { fail: 'the plugin fails: ' + r.failed, show: show() + r.stdout };
    if (!r.same) return { fail: 'the plugin returns another program than the library pass: ' + JSON.stringify(r.at), show: show() + '--- plugin\n' + r.plugin + '\n--- library\n' + r.library };
    if (!r.sameComments) return { fail: 'the plugin leaves other comments than the library pass', show: show() + '--- plugin\n' + r.pluginComments + '\n--- library\n' + r.libraryComments };
    const kind = options === null ? 'noOptions' : r.fallback ? 'malformedOptions' : 'options';
    return { nontrivial: !r.libraryUnchanged, key: show(), tags: [...s.tags, kind, ...(filename === undefined ? ['noFilename'] : []), ...(comments ? [] : ['noComments'])], show: show() };
  },
};
