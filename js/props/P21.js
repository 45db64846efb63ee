'use strict';
const O = require('./_oxide');
const { sequence } = require('./P20');
module.exports = {
  id: 'P21',
  quick: { cases: 100000 }, thorough: { cases: 2500000 },
  rule: 'The merge sequences of P20 with truthiness counts on one, both or neither side, sometimes only for some of the logical branches and with branches of other kinds numbered in between; truthiness counts compared by branch location after every merge; non-trivial = a logical branch has truthiness counts on both sides and its number differs, or only one side has any.',
  assumptions: O.ASSUME,
  gen: fc => fc.record({ ch: O.choices(fc, 400), bias: fc.nat(2) }),
  run(c) {
    const { objs } = sequence(c, true);
    const texts = objs.map(o => O.toText(o));
    const ops = objs.map((o, i) => ({ op: 'parse', text: texts[i] }));
    for (let i = 1; i < objs.length; i++) ops.push({ op: 'merge', a: 0, b: i }, { op: 'dump', a: 0 });
    const show = texts.join('\n');
    const r = O.exec(ops);
    if (r.panic) return { fail: 'merging panics: ' + r.panic, show };
    if (r.err) return { fail: 'not read: ' + r.err, show };
    let m = O.canon(objs[0]), nt = false;
    const num = o => new Map(o.branchMap.map(([id, e]) => [O.key(e.locations[0]), id]));
    for (let i = 1; i < objs.length; i++) {
      const b = O.canon(objs[i]);
      if (m.t && b.t) { const x = num(objs[0]), y = num(objs[i]); for (const k of b.t.keys()) if (m.t.has(k) && x.get(k) !== y.get(k)) nt = true; } else if ((m.t && m.t.size) || (b.t && b.t.size)) nt = true;
      m = O.merge(m, b);
      const raw = r[objs.length + 2 * (i - 1) + 1], got = O.canon(JSON.parse(raw));
      const bad = got.problems.filter(p => /truth/.test(p));
      if (bad.length) return { fail: bad.join('; '), show: show + '\n' + raw };
      const t = x => JSON.stringify(JSON.parse(O.text(x)).t);
      const e = t(m), g = t(got);
      if (e !== g) return { fail: `truthiness counts after merge ${i}: ` + O.firstDifference(String(e), String(g)), show: show + '\n' + raw };
    }
    return { nontrivial: nt, key: show, tags: ['objects:' + objs.length, 'withT:' + objs.filter(o => o.bT).length], show };
  },
};
