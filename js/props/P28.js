'use strict';
const O = require('./_oxide');
module.exports = {
  id: 'P28',
  quick: { cases: 80000 }, thorough: { cases: 2000000 },
  rule: 'Generated coverage objects and histories of merges and resets: after a reset the object must equal its own zero object (same text, every count zero), and merging 0-4 runs into it must equal merging them into the zero object; non-trivial = a non-zero count before the reset and at least one merge after it.',
  assumptions: O.ASSUME,
  gen: fc => fc.record({ ch: O.choices(fc, 400) }),
  run(c) {
    const ch = new O.Ch(c.ch), w = O.world(ch), sm = ch.n(4) === 3 ? { version: 3, sources: ['a', ''], names: [], mappings: 'AAAA' } : undefined;
    const d = O.objectOf(ch, w, { prefix: true, forms: ch.n(3) === 2, all: ch.p(6), sourceMap: sm });
    const zero = { ...d, s: d.s.map(([k]) => [k, 0]), f: d.f.map(([k]) => [k, 0]), b: d.b.map(([k, v]) => [k, v.map(() => 0)]), ...(d.bT ? { bT: d.bT.map(([k, v]) => [k, v.map(() => 0)]) } : {}) };
    const runs = []; for (let i = ch.n(5); i > 0; i--) runs.push(O.objectOf(ch, w, { prefix: true, all: ch.p(5), maxCount: 1000000 }));
    const pre = ch.n(3) === 2 ? O.objectOf(ch, w, { prefix: true }) : null; // merged before the reset
    const ops = [{ op: 'parse', text: O.toText(d) }, { op: 'parse', text: O.toText(zero) }, ...runs.map(x => ({ op: 'parse', text: O.toText(x) }))];
    const show = ops.map(o => o.text).join('\n');
    let last = runs.length + 2;
    if (pre) { ops.push({ op: 'parse', text: O.toText(pre) }, { op: 'merge', a: 0, b: last }, { op: 'merge', a: 1, b: last }); last++; }
    ops.push({ op: 'dump', a: 0 }, { op: 'reset', a: 0 }, { op: 'dump', a: 0 });
    const at = ops.length - 3;
    if (!pre) ops.push({ op: 'eq', a: 0, b: 1 }); else ops.push({ op: 'reset', a: 1 }, { op: 'eq', a: 0, b: 1 });
    const eqAt = ops.length - 1;
    runs.forEach((_, i) => ops.push({ op: 'merge', a: 0, b: i + 2 }, { op: 'merge', a: 1, b: i + 2 }));
    ops.push({ op: 'dump', a: 0 }, { op: 'dump', a: 1 });
    const r = O.exec(ops);
    if (r.panic) return { fail: 'panic: ' + r.panic, show };
    if (r.err) return { fail: 'not read: ' + r.err, show };
    const before = JSON.parse(r[at]), after = JSON.parse(r[at + 2]);
    for (const k of ['s', 'f']) before[k] = Object.fromEntries(Object.keys(before[k]).map(i => [i, 0]));
    for (const k of ['b', 'bT']) if (before[k]) before[k] = Object.fromEntries(Object.keys(before[k]).map(i => [i, before[k][i].map(() => 0)]));
    if (JSON.stringify(before) !== JSON.stringify(after)) return { fail: 'after a reset: ' + O.firstDifference(JSON.stringify(before), JSON.stringify(after)), show };
    if (r[eqAt] !== true) return { fail: 'a reset object does not equal the zero object', show };
    if (r[r.length - 2] !== r[r.length - 1]) return { fail: 'merging after a reset: ' + O.firstDifference(r[r.length - 1], r[r.length - 2]), show };
    const any = d.s.some(x => x[1]) || d.f.some(x => x[1]) || d.b.some(x => x[1].some(y => y));
    return { nontrivial: any && runs.length > 0, key: show, tags: ['runs:' + runs.length, d.bT ? 'logic' : 'plain', ...(pre ? ['mergedBefore'] : [])], show };
  },
};
