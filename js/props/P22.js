'use strict';
const O = require('./_oxide');
/** a random binary tree of merges over a permutation; returns ops, the slot of the result */
function plan(ch, slots, ops, next) {
  let forest = O.shuffle(ch, slots);
  // every tree works on clones, so that the originals stay
  forest = forest.map(i => { ops.push({ op: 'clone', a: i }); return next.n++; });
  while (forest.length > 1) { const i = ch.n(forest.length), a = forest.splice(i, 1)[0], j = ch.n(forest.length), b = forest[j]; ops.push({ op: 'merge', a: b, b: a }); }
  return forest[0];
}
module.exports = {
  id: 'P22',
  quick: { cases: 60000 }, thorough: { cases: 1200000 },
  rule: 'Multisets of 2-6 coverage objects of one file, among them empty objects and never-loaded placeholders (all zero), each merged in 4 random orders and groupings, with and without the neutral objects, compared by location with each other and with the model; non-trivial = at least two objects with entries.',
  assumptions: [...O.ASSUME, 'placeholders of one file hold the same entries', 'all objects of a file carry the same input source map'],
  gen: fc => fc.record({ ch: O.choices(fc, 500) }),
  run(c) {
    const ch = new O.Ch(c.ch), w = O.world(ch), n = 2 + ch.n(5), objs = [], kinds = [];
    const logic = [undefined, true, false][ch.n(3)];
    const stub = O.objectOf(ch, w, { all: true, logic: logic !== undefined ? logic : ch.n(2) === 1 });
    for (let i = 0; i < n; i++) {
      const k = ch.n(8);
      if (k === 6) { objs.push(stub); kinds.push('stub'); } else if (k === 7) { objs.push({ all: false, path: w.path, statementMap: [], fnMap: [], branchMap: [], s: [], f: [], b: [], ...(logic === true ? { bT: [] } : {}) }); kinds.push('empty'); } else { objs.push(O.objectOf(ch, w, { logic, prefix: true, maxCount: 100000000 })); kinds.push('real'); }
    }
    const texts = objs.map(o => O.toText(o));
    const ops = texts.map(t => ({ op: 'parse', text: t }));
    const next = { n: n }, results = [];
    const all = objs.map((_, i) => i), core = all.filter(i => kinds[i] === 'real');
    for (let k = 0; k < 4; k++) { results.push([plan(ch, all, ops, next), ops.length]); ops.push({ op: 'dump', a: results[results.length - 1][0] }); }
    let coreAt = -1;
    if (core.length) { const s = plan(ch, core, ops, next); coreAt = ops.length; ops.push({ op: 'dump', a: s }); }
    const show = texts.join('\n');
    const r = O.exec(ops);
    if (r.panic) return { fail: 'merging panics: ' + r.panic, show };
    if (r.err) return { fail: 'not read: ' + r.err, show };
    const forms = results.map(([, at]) => O.canon(JSON.parse(r[at])));
    for (const f of forms) if (f.problems.length) return { fail: f.problems.join('; '), show };
    const T = f => { const x = { ...f }; if (x.t && !x.t.size) x.t = null; return O.text(x); };
    const t0 = T(forms[0]);
    for (const f of forms) if (T(f) !== t0) return { fail: 'two merge orders differ: ' + O.firstDifference(t0, T(f)), show };
    // model, in the given order
    const m = objs.map(O.canon).reduce(O.merge);
    if (T(m) !== t0) return { fail: 'differs from the sum of the objects: ' + O.firstDifference(T(m), t0), show };
    if (coreAt >= 0) { const k = T(O.canon(JSON.parse(r[coreAt]))); if (k !== t0) return { fail: 'an empty object or a placeholder changes the result: ' + O.firstDifference(k, t0), show }; }
    return { nontrivial: core.length >= 2 && objs.filter(o => o.s.length + o.b.length > 0).length >= 2, key: show, tags: ['objects:' + n, ...new Set(kinds)], show };
  },
};
