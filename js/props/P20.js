'use strict';
const O = require('./_oxide');
/** merges of 2 objects (and then more, in sequence) against the keyed model */
function sequence(c, prefix) {
  const ch = new O.Ch(c.ch), w = O.world(ch), n = 2 + (ch.n(4) === 3 ? 1 + ch.n(3) : 0);
  const objs = [];
  for (let i = 0; i < n; i++) objs.push(O.objectOf(ch, w, { prefix, partialLogic: true, forms: ch.n(6) === 5, all: ch.p(8), logic: c.logic }));
  return { w, objs };
}
module.exports = {
  id: 'P20', sequence,
  quick: { cases: 80000 }, thorough: { cases: 2500000 },
  rule: 'Sequences of 2-5 coverage objects over one generated set of locations (near-identical locations, partial overlap, any numbering and key order, branches of different path counts, placeholders) merged one after the other and compared after every step with a model keyed by location; non-trivial = at least two entries present on both sides and one present on one side only.',
  assumptions: O.ASSUME,
  gen: fc => fc.record({ ch: O.choices(fc, 400) }),
  run(c) {
    const { objs } = sequence(c, true);
    const texts = objs.map(o => O.toText(o));
    const ops = objs.map((o, i) => ({ op: 'parse', text: texts[i] }));
    for (let i = 1; i < objs.length; i++) ops.push({ op: 'merge', a: 0, b: i }, { op: 'dump', a: 0 }, { op: 'dump', a: i });
    const show = texts.join('\n');
    const r = O.exec(ops);
    if (r.panic) return { fail: 'merging panics: ' + r.panic, show };
    if (r.err) return { fail: 'not read: ' + r.err, show };
    let m = O.canon(objs[0]), both = 0, one = 0;
    for (let i = 1; i < objs.length; i++) {
      const b = O.canon(objs[i]);
      for (const k of ['s', 'f', 'b']) { for (const x of b[k].keys()) m[k].has(x) ? both++ : one++; for (const x of m[k].keys()) if (!b[k].has(x)) one++; }
      m = O.merge(m, b);
      const base = objs.length + 3 * (i - 1);
      if (r[base] !== true) return { fail: 'merging changes the object that is merged in', show };
      const got = O.canon(JSON.parse(r[base + 1])), side = O.canon(JSON.parse(r[base + 2]));
      if (got.problems.length) return { fail: `after merge ${i}: ` + got.problems.join('; '), show };
      const e = O.text(m, { truthy: false }), g = O.text(got, { truthy: false });
      if (e !== g) return { fail: `after merge ${i}: ` + O.firstDifference(e, g), show: show + '\n' + r[base + 1] };
      if (O.text(side) !== O.text(b)) return { fail: 'merging changes the object that is merged in', show };
    }
    return { nontrivial: both >= 2 && one >= 1, key: show, tags: ['objects:' + objs.length], show };
  },
};
