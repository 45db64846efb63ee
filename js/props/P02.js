'use strict';
const { h } = require('../addon');
const { accepts } = require('../accept');
const { sourceArb, render } = require('./_src');
const ODD = ['a', '__coverage__', '', '"', "'", '\\', '*/', '/*', '//', '\n', '\r', '\u2028', '\u2029', '\0', '`', '${x}', '</script>', 'é', '中', '😀', '\\u', '\\x0', '<!--', '-->', '/', '\\n', 'C:\\a\\b.js', '#', '?', '%', '\ufeff', '\x7f', 'constructor', ' ', '.', '$&'];
module.exports = {
  id: 'P02',
  quick: { cases: 50000 }, thorough: { cases: 800000 },
  rule: 'Sources: IR programs (with hints), TypeScript / JSX / rare-syntax templates with generated holes, token mutants of both, deep nesting in 38 shapes, degenerate texts; with random options (odd coverage variable, filename, source map, method names). Only sources whose uninstrumented output the engine accepts under the same goal count; non-trivial = such a source for which coverage code was emitted.',
  assumptions: ['V8 (Node 22) as the conforming parser', 'the compiler must parse the source and its own uninstrumented output must be acceptable', 'nesting up to depth 120 (quick) / 400 (thorough), on a 512 MB stack'],
  gen: (fc, cfg) => {
    const odd = fc.noBias(fc.array(fc.nat(ODD.length - 1), { maxLength: 4 }));
    return fc.record({
      src: sourceArb(fc, { env: true, maxDepth: cfg.tier === 'thorough' ? 400 : 120 }),
      opts: fc.record({
        coverageVariable: odd, compact: fc.boolean(), reportLogic: fc.boolean(), ignoreClassMethods: fc.array(odd, { maxLength: 2 }), debugInitialCoverageComment: fc.boolean(),
        inputSourceMap: fc.record({ version: fc.constant(3), file: odd, sourceRoot: odd, sources: fc.array(odd, { maxLength: 2 }), sourcesContent: fc.array(odd, { maxLength: 2 }), names: fc.array(odd, { maxLength: 2 }), mappings: odd }, { requiredKeys: ['version', 'sources', 'names', 'mappings'] }),
        instrumentLog: fc.record({ level: fc.constantFrom('trace', 'x'), enableTrace: fc.boolean() }, { requiredKeys: [] }),
      }, { requiredKeys: [] }),
      filename: odd,
      emit: fc.noBias(fc.record({ cjs: fc.boolean(), minify: fc.boolean(), comments: fc.boolean() })),
    });
  },
  run(c) {
    const txt = a => a.map(i => ODD[i]).join('');
    const deepTxt = o => { if (Array.isArray(o)) return o.every(v => typeof v === 'number') ? txt(o) : o.map(deepTxt); if (o && typeof o === 'object') return Object.fromEntries(Object.entries(o).map(([k, v]) => [k, deepTxt(v)])); return o; };
    const opts = deepTxt(c.opts);
    for (const [o, ks] of [[opts, ['ignoreClassMethods']], [opts.inputSourceMap || {}, ['sources', 'names', 'sourcesContent']]]) for (const k of ks) if (o[k] === '') o[k] = [];
    const s = render(c.src);
    const cjs = s.goal === 'module' && c.emit.cjs;
    const req = { filename: txt(c.filename), syntax: s.syntax, goal: s.goal, ...s.req, ...c.emit, cjs };
    const go = o => JSON.parse((s.deep ? h.transformDeep : h.transform)(s.code, JSON.stringify(o ? { ...req, options: JSON.stringify(o) } : req)));
    const plain = go(null);
    if (!plain.ok) return { discard: 'not parsed: ' + plain.kind };
    const goal = cjs ? 'cjs' : s.goal;
    const e0 = accepts(plain.code, goal);
    if (e0 !== null) return { discard: 'uninstrumented output not accepted by the engine' };
    const r = go(opts);
    const show = '--- source (' + s.goal + ', ' + s.syntax + ')\n' + s.code.slice(0, 2000) + '\n--- options ' + JSON.stringify(opts) + ' filename ' + JSON.stringify(req.filename);
    if (!r.ok) return { fail: 'instrumentation failed: ' + r.kind + ' ' + r.message, show };
    const e1 = accepts(r.code, goal);
    if (e1 !== null) return { fail: 'emitted code rejected: ' + e1, show: show + '\n--- emitted\n' + r.code.slice(0, 200000) };
    return { nontrivial: r.code.length > plain.code.length + 200, key: s.code + JSON.stringify(c.opts), tags: [s.goal, cjs ? 'cjs' : 'asIs', ...Object.keys(opts), ...s.tags], show: s.code };
  },
};
