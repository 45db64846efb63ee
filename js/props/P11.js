'use strict';
const { transform } = require('../addon');
const { sourceArb, render } = require('./_src');
const HINTS = [' istanbul ignore file ', 'istanbul ignore file', ' istanbul ignore file: because é ', '\n istanbul ignore file\n', '  istanbul   ignore\tfile-x ', ' istanbul ignore file istanbul ignore next ', '\tistanbul\n ignore\n  file, all of it ', ' istanbul ignore file/'];
const ALIKE = [' istanbul ignore files ', ' not istanbul ignore file ', '* istanbul ignore file ', ' istanbul ignore_file ', ' istanbulignore file ', ' Istanbul ignore file ', ' istanbul ignore  FILE ', ' istanbul ignore file1 ', ' istanbul ignore file_', ' istanbul-ignore file ', ' c8 ignore file ', ' istanbul ignore the file ', ' "istanbul ignore file" ', ' @istanbul ignore file ', ' istanbul ignore fil e ', ' ignore file ', ' istanbul file ', '\n * istanbul ignore file\n '];
const PLAIN = [' c ', '', ' é 中文 ', '! @license ', '*\n * doc\n '];
const PREFIX = ['', '', '', '\ufeff', '#!/usr/bin/env node\n', '\ufeff#! x istanbul ignore file\n', '\n\n', '  '];
// [before the body, after the body]: a comment H between other code
const INNER = [['', ''], ['', '\n;\n/*H*/\nvoid 0;'], ['', '\n;/*H*/ void 0;'], ['', '\n;function q_(){ /*H*/ }'], ['', '\n;function q_(){ return 1; //H\n}'], ['(/*H*/ 0);\n', ''], ['{ /*H*/ }\n', ''], ['void /*H*/ 0;\n', ''], ['void 0;\n/*H*/\n', ''], ['void 0;//H\n', ''], ['function q_(/*H*/){}\n', ''], ['"/*H*/";\n', '']];
const neutral = t => t.replace(/[^\s]/gu, 'z');
const comment = ([text, line]) => line && !/\n/.test(text) ? '//' + text + '\n' : '/*' + text.replace(/\/$/, '/ ') + '*/';
module.exports = {
  id: 'P11',
  quick: { cases: 40000 }, thorough: { cases: 500000 },
  rule: 'Sources (programs, TypeScript/JSX/rare syntax) with 0-3 opening comments and an optional closing comment drawn from hints, lookalikes and plain comments, after a byte order mark or hashbang or not, and a hint between other code; hinted files must come out exactly as without instrumentation, all others exactly as with each lookalike replaced by neutral text of the same shape; non-trivial = at least one hint or lookalike is present and the file would be instrumented without it.',
  assumptions: ['hint grammar as documented upstream: text starting with white space, istanbul, ignore, file, then a non-word character or the end'],
  gen: fc => {
    const cm = fc.noBias(fc.tuple(fc.constantFrom(0, 1, 1, 2), fc.nat(999), fc.nat(2)));
    return fc.record({ src: sourceArb(fc, { env: true, deep: 0, odd: 0 }), prefix: fc.noBias(fc.nat(PREFIX.length - 1)), lead: fc.array(cm, { maxLength: 3 }), tail: fc.noBias(fc.oneof(fc.constant([]), fc.constant([]), fc.tuple(cm))), sep: fc.noBias(fc.constantFrom('\n', ' ', '\n\n', '')), inner: fc.noBias(fc.nat(INNER.length - 1)), innerText: fc.noBias(fc.nat(HINTS.length + ALIKE.length - 1)), cjs: fc.boolean() });
  },
  run(c) {
    const s = render(c.src);
    const body = s.code.replace(/^#!.*|^\ufeff/, '').replace(/istanbul\s+ignore\s+file/g, 'istanbul ignore f.le');
    const pick = ([k, i]) => k === 0 ? HINTS[i % HINTS.length] : k === 1 ? ALIKE[i % ALIKE.length] : PLAIN[i % PLAIN.length];
    const [ib, ia] = INNER[c.inner];
    let it = [...HINTS, ...ALIKE][c.innerText]; if (/\/\/H|"/.test(ib + ia)) it = it.replace(/\n/g, ' ').replace(/"/g, "'");
    // lowering what comes first leaves no place the comments after a hashbang belong to
    const prefix = c.src.env === 'proposals' || c.src.mode === 'decLate' ? PREFIX[c.prefix].replace(/#![^]*/, '') : PREFIX[c.prefix];
    const build = sub => { const isub = /"/.test(ib) ? t => t : sub; return prefix + c.lead.map(x => comment([sub(pick(x)), x[2] === 0])).join(c.sep) + (c.lead.length ? '\n' : '') + ib.replace('H', () => isub(it)) + 'void 0;\n' + body + '\n' + ia.replace('H', () => isub(it)) + (c.tail.length ? (c.sep || '\n') + comment([sub(pick(c.tail[0])), c.tail[0][2] === 0]) : '\n'); };
    const code = build(t => t), zed = build(neutral);
    const hinted = [...c.lead, ...c.tail].some(x => x[0] === 0);
    const req = { syntax: s.syntax, goal: s.goal, ...s.req, cjs: s.goal === 'module' && c.cjs };
    const plain = transform(code, { ...req, options: null });
    if (!plain.ok) return { discard: 'not parsed: ' + plain.kind };
    const r = transform(code, { ...req, options: {} }), z = transform(zed, { ...req, options: {} });
    const show = '--- source (' + s.goal + ', ' + s.syntax + ')\n' + code.slice(0, 2500);
    if (!r.ok || !z.ok) return { discard: 'not instrumented (P02)' };
    if (hinted && r.code !== plain.code) return { fail: 'a file with a file-level ignore hint is changed', show: show + '\n--- emitted\n' + r.code.slice(0, 6000) };
    if (!hinted) {
      if (r.code.length < plain.code.length + 200) return { fail: 'a file without a file-level ignore hint is not instrumented', show };
      const e0 = { ...req, options: {}, comments: false };
      const x = transform(code, e0), y = transform(zed, e0);
      if (x.code !== y.code) { let i = 0; while (x.code[i] === y.code[i]) i++; return { fail: 'a comment that is no file-level hint changes the output near: ' + x.code.slice(Math.max(0, i - 120), i + 120) + '\n vs ' + y.code.slice(Math.max(0, i - 120), i + 120), show }; }
    }
    const any = hinted || c.inner > 0 || [...c.lead, ...c.tail].some(x => x[0] === 1);
    return { nontrivial: any && z.code.length > plain.code.length + 200, key: code, tags: [s.goal, hinted ? 'hinted' : 'lookalike', ...s.tags, 'prefix' + c.prefix, 'inner' + c.inner], show: code };
  },
};
