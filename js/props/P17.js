'use strict';
const { runPlugin } = require('../plugin');
const { Choices } = require('../gen');
const C = require('../case');
const WORDS = ['src', 'test', 'a', 'b', 'index', 'node_modules', 'x y', 'é', '中', 'A', 'foo-bar', 'lib.d', '.hidden', 'a.b', '_', '@scope', '#1', '~', '+', '__tests__', 'Test', '0', '=', '😀', 'util'];
const CHARS = [...'abcXYZ019._-é中 ~@+'];
const EXT = ['.js', '.ts', '.test.js', '.spec.tsx', '', '.mjs', '.JS'];
// lists holding one of these are not parsable as a whole
const BAD = ['[', '{a', 'a//b', '***', '**a/b', 'a**', 'x{', 'a]', '<a', '[]', '{**}', 'a/**/**/b', 'a:b', '**/*.js[', '(?z)a', 'x,y'];

// ---- globs as structures: {drive, root, comps: ['**' | [atoms]]}
function atoms(c) {
  const list = []; let star = false;
  const n = 1 + c.n(3);
  for (let i = 0; i < n; i++) {
    const k = c.n(14);
    if (k < 6) { list.push({ k: 'lit', v: c.of(WORDS) }); star = false; }
    else if (k < 8 && !star) { list.push({ k: 'star', lazy: c.n(5) === 4 }); star = true; }
    else if (k < 9) { list.push({ k: 'one' }); star = false; }
    else if (k < 11) { const neg = c.p(35), m = 1 + c.n(3), items = []; for (let j = 0; j < m; j++) items.push(c.p(40) ? ['a', 'e'] : c.p(30) ? ['0', '9'] : [c.of([...'abxAZ0._é中']), null]); list.push({ k: 'cls', neg, items }); star = false; }
    else if (k < 13) { const m = 1 + c.n(3), alts = []; for (let j = 0; j < m; j++) { const b = [{ k: 'lit', v: c.of(WORDS) }]; if (c.p(20)) b.push({ k: 'one' }); if (c.p(15)) b.push({ k: 'lit', v: c.of(['.', '-', 'z']) }); alts.push(b); } list.push({ k: 'alt', alts }); star = false; }
    else { const lo = c.n(3), hi = c.p(50) ? Math.max(1, lo + c.n(2)) : null; list.push({ k: 'rep', v: c.of(['ab', 'x', 'é']), lo, hi }); star = false; }
  }
  if (c.p(55)) { const e = c.of(EXT); if (e) list.push({ k: 'lit', v: e }); }
  // a repetition that may be empty must not be all there is
  if (list.every(a => a.k === 'rep')) list.push({ k: 'lit', v: 'r' });
  return list;
}
function makeGlob(c) {
  const g = { drive: '', root: c.p(35), comps: [] };
  if (g.root && c.p(45)) g.drive = c.of(['C:', 'c:', 'D:', '\\\\srv\\share']);
  const n = 1 + c.n(4);
  for (let i = 0; i < n; i++) {
    const tree = c.p(35) && g.comps[g.comps.length - 1] !== '**' && !(g.root && i === 0);
    g.comps.push(tree ? '**' : c.p(25) ? [{ k: 'star' }] : atoms(c));
  }
  return g;
}
const atomText = a => { switch (a.k) { case 'lit': return a.v.replace(/[?*$:<>()[\]{},]/g, ''); case 'star': return a.lazy ? '$' : '*'; case 'one': return '?'; case 'cls': return '[' + (a.neg ? '!' : '') + a.items.map(([x, y]) => y ? x + '-' + y : x).join('') + ']'; case 'alt': return '{' + a.alts.map(b => b.map(atomText).join('')).join(',') + '}'; case 'rep': return '<' + a.v + ':' + a.lo + ',' + (a.hi === null ? '' : a.hi) + '>'; } };
const globText = (g, sep) => g.drive.replace(/\\/g, sep(true)) + (g.root ? sep() : '') + g.comps.map((q, i) => (i ? sep() : '') + (q === '**' ? '**' : q.map(atomText).join(''))).join('');
// ---- reference matcher: component by component, character by character
function compMatch(list, text) {
  const s = [...text];
  const go = (ats, i) => {
    if (!ats.length) return new Set([i]);
    const [a, ...rest] = ats; let ends;
    switch (a.k) {
      case 'lit': { const v = [...a.v.replace(/[?*$:<>()[\]{},]/g, '')]; ends = v.every((ch, j) => s[i + j] === ch) ? [i + v.length] : []; break; }
      case 'star': ends = []; for (let j = i; j <= s.length; j++) ends.push(j); break;
      case 'one': ends = i < s.length ? [i + 1] : []; break;
      case 'cls': { const ch = s[i]; const hit = ch !== undefined && a.items.some(([x, y]) => y ? ch >= x && ch <= y && [...ch].length === 1 && ch.length === 1 : ch === x); ends = ch !== undefined && hit !== a.neg ? [i + 1] : []; break; }
      case 'alt': ends = a.alts.flatMap(b => [...go(b, i)]); break;
      case 'rep': { const v = [...a.v]; ends = []; let at = i, k = 0; for (;;) { if (k >= a.lo && (a.hi === null || k <= a.hi)) ends.push(at); if (a.hi !== null && k >= a.hi) break; if (!v.every((ch, j) => s[at + j] === ch)) break; at += v.length; k++; } break; }
    }
    const out = new Set(); for (const e of ends) for (const x of go(rest, e)) out.add(x);
    return out;
  };
  return go(list, 0).has(s.length);
}
function globMatch(g, f) {
  const go = (ps, fs) => {
    if (!ps.length) return !fs.length;
    const [p, ...rest] = ps;
    if (p === '**') { for (let i = 0; i <= fs.length; i++) if (go(rest, fs.slice(i))) return true; return false; }
    return fs.length > 0 && compMatch(p, fs[0]) && go(rest, fs.slice(1));
  };
  // an absolute path has an empty component before its root, which "*" also matches
  return go(g.root ? [[], ...g.comps] : g.comps, f.root ? ['', ...f.comps] : f.comps);
}
// ---- filenames: {drive, root, comps}
function instance(a, c) {
  switch (a.k) {
    case 'lit': return a.v.replace(/[?*$:<>()[\]{},]/g, '');
    case 'star': return c.p(30) ? '' : c.p(50) ? c.of(WORDS) : c.of(CHARS) + c.of(CHARS);
    case 'one': return c.of(CHARS);
    case 'cls': { if (a.neg) return c.of(CHARS); const [x] = c.of(a.items); return x; }
    case 'alt': return c.of(a.alts).map(q => instance(q, c)).join('');
    case 'rep': return a.v.repeat(a.lo + c.n(a.hi === null ? 3 : a.hi - a.lo + 1));
  }
}
function makeName(c, globs) {
  let f;
  if (globs.length && c.n(5)) {
    const g = c.of(globs);
    f = { drive: g.drive, root: g.root, comps: [] };
    for (const q of g.comps) { if (q === '**') { for (let k = c.n(3); k > 0; k--) f.comps.push(c.of(WORDS)); } else f.comps.push(q.map(a => instance(a, c)).join('')); }
    if (g.comps[0] === '**') f.root = c.p(40);
    for (let k = c.n(3); k > 0; k--) { // near misses
      const i = f.comps.length ? c.n(f.comps.length) : 0;
      switch (c.n(8)) {
        case 0: if (f.comps.length > 1) f.comps.splice(i, 1); break;
        case 1: f.comps.splice(i, 0, c.of(WORDS)); break;
        case 2: if (f.comps[i]) f.comps[i] = f.comps[i].toUpperCase() === f.comps[i] ? f.comps[i].toLowerCase() : f.comps[i].toUpperCase(); break;
        case 3: if (f.comps[i]) f.comps[i] += c.of(CHARS); break;
        case 4: if (f.comps[i]) f.comps[i] = [...f.comps[i]].slice(1).join(''); break;
        case 5: f.root = !f.root; break;
        case 6: f.drive = f.drive && c.p(50) ? '' : c.of(['C:', 'E:', '\\\\srv\\share', '\\\\other\\disk']); break;
        case 7: if (f.comps.length > 1) f.comps[i] = f.comps[i] + c.of(['(1)', '[x]', '{a,b}', '$', ',', '*', '?', ' ']); break;
      }
    }
  } else {
    f = { drive: '', root: c.p(50), comps: [] };
    if (f.root && c.p(30)) f.drive = c.of(['C:', '\\\\srv\\share']);
    for (let k = 1 + c.n(4); k > 0; k--) f.comps.push(c.of(WORDS));
    f.comps[f.comps.length - 1] += c.of(EXT);
  }
  f.comps = f.comps.filter(x => x !== '' && x !== '.' && x !== '..');
  if (!f.comps.length) f.comps = ['q.js'];
  if (f.drive) f.root = true;
  return f;
}
const nameText = (f, sep) => f.drive.replace(/\\/g, sep(true)) + (f.root ? sep() : '') + f.comps.map((q, i) => (i ? sep() : '') + q).join('');
const styles = c => { const k = c.n(3); return () => k === 0 ? '/' : k === 1 ? '\\' : c.p(50) ? '\\' : '/'; };
// share prefixes only keep their meaning with their own separators
const withDrive = (x, sep) => x.drive.startsWith('\\\\') ? share => share ? '\\' : sep() : sep;
const plain = t => !/^[A-Za-z]:/.test(t) && !/^[\\/]{2}/.test(t);

const SOURCES = ['a();', 'export const f = (x = 1) => x && 2;', '// note\nif (a) { b } /* istanbul ignore next */ else c;\n', 'class A { m() { return 1 } }', '"use strict";\nvar x = a ? b : c;'];
module.exports = {
  id: 'P17',
  quick: { cases: 40000 }, thorough: { cases: 600000 },
  rule: 'Lists of 0-4 generated globs (literals, *, $, ?, **, classes, negated classes, alternatives, repetitions, absolute, with drive or share prefix, each written with forward, backward or mixed separators), sometimes with an unparsable member, and filenames that instantiate one of the globs, near misses of such (a component or character more, less or in another case, another root or prefix) or unrelated, written with either separator; the compiled plugin runs on a small program and its result is compared with an independent component-wise matcher: unchanged, or the library pass\'s result; non-trivial = a parsable non-empty list where the filename instantiates one of its globs, exactly or nearly.',
  assumptions: ['paths in plain form (no empty, "." or ".." components, no trailing separator)', 'a drive or share prefix is not significant (the repository normalises it away)', 'globs do not start with "/**" (wax itself is lax there)', 'the plugin is run in a host that answers its calls as swc\'s plugin runner does'],
  minNontrivial: 0.2,
  gen: fc => fc.record({ arr: fc.noBias(fc.array(fc.noBias(fc.nat(0xffffff)), { minLength: 10, maxLength: 120, size: 'max' })), src: fc.noBias(fc.nat(SOURCES.length - 1)), bad: fc.noBias(fc.nat(7)), n: fc.noBias(fc.nat(5)) }),
  run(q) {
    const c = new Choices(q.arr);
    const count = q.n === 5 ? 0 : 1 + (q.n % 4), globs = [], texts = [];
    for (let i = 0; i < count; i++) {
      const g = makeGlob(c);
      for (const x of g.comps) if (x !== '**' && !x.map(atomText).join('')) x.push({ k: 'lit', v: 'q' });
      const t = globText(g, withDrive(g, styles(c)));
      if (!g.drive && !plain(t)) continue;
      globs.push(g); texts.push(t);
    }
    const near = c.n(1000), f = makeName(c, globs), name = nameText(f, withDrive(f, styles(c)));
    if (!f.drive && !plain(name)) return { discard: 'looks like a prefix' };
    let bad = null;
    if (q.bad === 7) { bad = BAD[near % BAD.length]; texts.splice(near % (texts.length + 1), 0, bad); }
    const options = JSON.stringify({ unstableExclude: q.bad === 6 && near % 3 === 0 ? null : texts });
    const none = q.bad === 6 && near % 3 === 0;
    const expected = !bad && !none && globs.some(g => globMatch(g, f));
    const r = runPlugin(SOURCES[q.src], { syntax: 'es', goal: q.src === 1 ? 'module' : 'script', filename: name, options });
    const show = () => `globs ${JSON.stringify(none ? null : texts)}\nfilename ${JSON.stringify(name)}\nexpected: ${expected ? 'excluded' : 'instrumented'}\n${r.stdout || ''}`;
    if (r.rejected) throw new Error(r.rejected);
    if (r.failed) return { fail: 'the plugin fails: ' + r.failed, show: show() };
    if (!bad && r.stdout.includes('Could not parse')) return { fail: 'a parsable list is reported as unparsable', show: show() };
    if (expected && !r.unchanged) return { fail: 'a matching file is not left unchanged', show: show() };
    if (!expected && r.unchanged) return { fail: bad ? 'an unparsable list is not ignored' : 'a file no glob matches is left uninstrumented', show: show() };
    if (!expected && !(r.same && r.sameComments)) return { fail: 'not instrumented as without globs', show: show() };
    return { nontrivial: !bad && !none && globs.length > 0, key: options + '|' + name, tags: [expected ? 'excluded' : 'kept', bad ? 'unparsable' : 'parsable', ...(f.drive ? ['prefix'] : []), ...(name.includes('\\') ? ['backslashes'] : [])], show: show() };
  },
};
