'use strict';
const { h } = require('../addon');
const { sourceArb, render } = require('./_src');
const WORD = /^(?:#?[\p{ID_Start}$_][\p{ID_Continue}$\u200c\u200d]*|\d[\w.]*|"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*')/u;
const COMMENT = /^(?:\/\/[^\n\r\u2028\u2029]*|\/\*[^]*?\*\/)/;
const PUNCT = /^(?:\/\/[^\n\r\u2028\u2029]*|\/\*[^]*?\*\/|\$\{|[^\p{ID_Continue}"'$#\\])+/u;
/** the words and comments of the output with the places of the source they come from, in the order of the output */
function read(r, buf, jsx) {
  const lines = r.code.split('\n'), starts = [0];
  for (const l of lines) starts.push(starts[starts.length - 1] + l.length + 1);
  const memo = new Map();
  // punctuation before a word does not count: the compiler gives a word the place of its parentheses or of itself
  const skip = p => { if (!memo.has(p)) { const m = PUNCT.exec(buf.slice(p, p + 3000).toString()); memo.set(p, m ? p + Buffer.byteLength(m[0]) : p); } return memo.get(p); };
  const words = [], comments = [], seen = new Set();
  for (const [l, c, p] of r.map) {
    if (p < 0 || p >= buf.length) continue;
    const at = starts[l] + c, m = COMMENT.exec(r.code.slice(at, at + 3000));
    if (m && jsx) m[0] = m[0].split(/[<>{}]/)[0]; // or text of an element that looks like one
    if (m) { if (buf.slice(p, p + 2).toString() === m[0].slice(0, 2)) { comments.push({ p, text: m[0], end: at + m[0].length }); } continue; }
    const w = WORD.exec(r.code.slice(at, at + 400));
    if (w) { words.push({ p: skip(p), text: w[0], at }); seen.add(w[0] + ' ' + skip(p)); }
  }
  return { words, seen, comments };
}
/** the word after every comment, of those the plain output has */
function follow(r, known) {
  let i = 0;
  for (const c of r.comments) {
    while (i < r.words.length && (r.words[i].at < c.end || !known.has(r.words[i].text + ' ' + r.words[i].p))) i++;
    [c.next, c.word] = i < r.words.length ? [r.words[i].p, r.words[i].text] : [-1, ''];
  }
}
module.exports = {
  id: 'P19',
  quick: { cases: 70000 }, thorough: { cases: 400000 },
  rule: 'The sources of P02 (programs with random layout, comments and hints, TypeScript / JSX / rare syntax, token mutants, deep nesting, degenerate texts), with and without reportLogic, emitted with a source map straight after the pass with and without instrumentation; every word (identifier, keyword, number, string) and every comment of the one output must be in the other, from the same place of the source; non-trivial = at least 10 words and coverage code emitted.',
  assumptions: ['a word mapped to the parentheses or punctuation before it counts as mapped to itself', 'with reportLogic a comment before a logical expression may stand before the counters of that expression'],
  gen: fc => fc.record({ src: sourceArb(fc, { ir: 8, maxDepth: 30 }), logic: fc.boolean() }),
  run(c) {
    const s = render(c.src), buf = Buffer.from(s.code);
    const req = { filename: '/v/f.js', syntax: s.syntax, goal: s.goal, raw: true, map: true };
    const go = options => JSON.parse((s.deep ? h.transformDeep : h.transform)(s.code, JSON.stringify(options ? { ...req, options: JSON.stringify(options) } : req)));
    const p = go(null); if (!p.ok) return { discard: 'not parsed' };
    const q = go({ reportLogic: c.logic }); if (!q.ok) return { discard: 'not instrumented (P02)' };
    const jsx = /jsx|tsx/.test(s.syntax), a = read(p, buf, jsx), b = read(q, buf, jsx);
    const show = '--- source\n' + s.code + '\n--- instrumented\n' + q.code.replace(/^function cov_[\s\S]*?\n}\n/m, '');
    const text = p => p < 0 ? 'the end' : `offset ${p} ${JSON.stringify(buf.slice(p, p + 30).toString())}`;
    for (const w of a.words) if (!b.seen.has(w.text + ' ' + w.p)) return { fail: `nothing maps ${JSON.stringify(w.text)} to ${text(w.p)}`, show };
    follow(a, a.seen); follow(b, a.seen);
    for (let i = 0; i < Math.max(a.comments.length, b.comments.length); i++) {
      const x = a.comments[i], y = b.comments[i];
      if (!x || !y || x.p !== y.p || x.text !== y.text) return { fail: `comment ${i} is ${x ? JSON.stringify(x.text) : 'none'} without and ${y ? JSON.stringify(y.text) : 'none'} with instrumentation`, show };
      if (x.next !== y.next || x.word !== y.word) return { fail: `comment ${JSON.stringify(x.text)} stands before ${JSON.stringify(y.word)} at ${text(y.next)}, not before ${JSON.stringify(x.word)} at ${text(x.next)}`, show };
    }
    return { nontrivial: a.words.length >= 10 && q.code.length > p.code.length + 200, key: s.code, tags: [s.goal, 'logic:' + c.logic, ...(a.comments.length ? ['comments'] : []), ...s.tags], show: s.code };
  },
};
