'use strict';
// Small sources, and variants of a source which share positions with it but differ in what stands there.
const H = '/* istanbul ignore next */ ';
const TINY = ['f();', 'function f() { return a; }', 'x = a && b;', 'x = a ? b : c;', 'class A { m() { a(); } }', 'if (a) b(); else c();', 'var o = { get a() { return b; } };', 'switch (a) { case b: c(); }', 'a = (b = c) => d;', ';', '"use strict";'].flatMap(t => [t, ' ' + t, t + '\n' + t, H + t, H.replace('istanbul', 'Istanbul') + t, t + ' ' + H + t, '/* istanbul ignore file */' + t]);
/** the same text with hints switched off or on, or letters changed, all at the same positions */
function twist(s, c) {
  let code = s.code;
  switch (c.n(6)) {
    case 0: code = code.replace(/istanbul/gi, m => c.n(2) ? m : m === 'istanbul' ? 'Istanbul' : 'istanbul'); break;
    case 1: code = code.replace(/&&|\|\||\?\?/g, m => c.n(2) ? m : c.of(['&&', '||', '??'])); break;
    case 2: code = code.replace(/\b[vw]\d+\b/g, m => c.n(4) ? m : m[0] === 'v' ? 'w' + m.slice(1) : 'v' + m.slice(1)); break;
    case 4: case 5: code = code.replace(/[ \n]/g, m => c.n(2) ? m : m === ' ' ? '\n' : ' '); break;
    case 3: code = code.replace(/\b(next|if|else|file)( *\*\/)/g, (m, a, b) => c.n(2) ? m : a.length === 4 ? (a === 'next' ? 'file' : 'next') + b : m); break;
  }
  return { ...s, code };
}
module.exports = { TINY, twist };
