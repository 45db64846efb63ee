'use strict';
const O = require('./_oxide');
const MAIN = O.FIELDS.slice(0, 4);
const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const total = (a, b) => { const t = a[0] + b[0], c = a[1] + b[1]; return [t, c, a[2] + b[2], O.pctOf(c, t)]; };
function model(a, b) {
  const r = {};
  for (const k of MAIN) r[k] = total(a[k], b[k]);
  r.branchesTrue = a.branchesTrue && b.branchesTrue ? total(a.branchesTrue, b.branchesTrue) : a.branchesTrue || b.branchesTrue ? total(a.branchesTrue || b.branchesTrue, [0, 0, 0]) : null;
  return r;
}
const norm = s => { const r = {}; for (const k of O.FIELDS) r[k] = s[k] ? s[k].slice() : null; return r; };
module.exports = {
  id: 'P26',
  quick: { cases: 100000 }, thorough: { cases: 2000000 },
  rule: 'Multisets of 2-7 summaries (generated totals up to 2^28, summaries of generated files, empty summaries; with and without truthy branch totals) combined in two random orders and groupings, and summaries of generated coverage maps against the combination of their files; non-trivial = at least two non-empty summaries.',
  assumptions: ['covered <= total, sums stay below 2^32'],
  gen: fc => fc.record({ ch: O.choices(fc, 400) }),
  run(c) {
    const ch = new O.Ch(c.ch);
    if (ch.n(3) === 2) { // maps
      const nf = 1 + ch.n(5), paths = O.shuffle(ch, O.PATHS).slice(0, nf), ops = [], objs = [];
      for (const p of paths) { const w = O.world(ch, { path: p }); const o = O.objectOf(ch, w, { all: ch.n(4) === 3 }); objs.push(o); ops.push({ op: 'parse', text: O.toText(o) }); }
      ops.push({ op: 'map.from', list: objs.map((_, i) => i) }, { op: 'map.summary', m: 0 });
      const r = O.exec(ops), show = ops.map(o => o.text || '').join('\n');
      if (r.panic) return { fail: 'panic: ' + r.panic, show };
      if (r.err) return { fail: 'not read: ' + r.err, show };
      let m = { branchesTrue: null }; for (const k of MAIN) m[k] = [0, 0, 0];
      for (const o of objs) m = model(m, O.summary(o));
      const g = r[r.length - 1];
      for (const k of O.FIELDS) if (!eq(m[k], g[k])) return { fail: `map summary, ${k}: expected ${JSON.stringify(m[k])} got ${JSON.stringify(g[k])}`, show };
      return { nontrivial: objs.filter(o => o.s.length).length >= 2, key: show, tags: ['map'], show };
    }
    const tot = () => { const t = ch.n(5) === 4 ? ch.n(0xffffff) * 16 : ch.n(4) === 3 ? 0 : ch.n(200), c2 = ch.n(5) === 4 ? t : t ? ch.n(0xffffff) % (t + 1) : 0, sk = ch.n(3) === 2 ? ch.n(9) : 0; return [t, c2, sk, t === 0 && ch.n(2) ? 'Unknown' : O.pctOf(c2, t)]; };
    const n = 2 + ch.n(6), ops = [], sums = [];
    for (let i = 0; i < n; i++) {
      const w = ch.n(8);
      if (w === 6) { const alt = ch.n(2) === 1; ops.push({ op: 'sum.default', alt }); sums.push({ ...Object.fromEntries(MAIN.map(k => [k, [0, 0, 0, 'Unknown']])), branchesTrue: alt ? null : [0, 0, 0, 'Unknown'] }); } else { const p = Object.fromEntries(MAIN.map(k => [k, tot()])); p.branchesTrue = ch.n(2) ? tot() : null; sums.push(p); ops.push({ op: 'sum.new', parts: { ...p } }); }
    }
    // default() differs in what it says about truthy totals of nothing: take the code's word for it
    const dump0 = ops.length; for (let i = 0; i < n; i++) ops.push({ op: 'sum.parts', a: i });
    const results = []; let slot = n;
    for (let k = 0; k < 2; k++) {
      let forest = O.shuffle(ch, sums.map((_, i) => i)).map(i => { ops.push({ op: 'sum.clone', a: i }); return { slot: slot++, m: null, i }; });
      const ms = forest.map(f => ({ ...f, list: [f.i] }));
      while (ms.length > 1) { const a = ms.splice(ch.n(ms.length), 1)[0], b = ms[ch.n(ms.length)]; ops.push({ op: 'sum.merge', a: b.slot, b: a.slot }); results.push({ merge: ops.length - 1 }); b.list.push(...a.list); }
      ops.push({ op: 'sum.parts', a: ms[0].slot }); results.push({ at: ops.length - 1 });
    }
    const show = JSON.stringify(sums);
    const r = O.exec(ops);
    if (r.panic) return { fail: 'panic: ' + r.panic, show };
    for (let i = 0; i < n; i++) { const g = r[dump0 + i], e = sums[i]; for (const k of MAIN) if (!eq(e[k].slice(0, 3), g[k].slice(0, 3))) return { fail: `a summary of ${JSON.stringify(e[k])} reads back as ${JSON.stringify(g[k])}`, show }; if (ops[i].op === 'sum.new' && !eq(e.branchesTrue, g.branchesTrue)) return { fail: `truthy totals read back as ${JSON.stringify(g.branchesTrue)}`, show }; e.branchesTrue = g.branchesTrue; }
    let m = sums.map(norm).reduce(model);
    for (const x of results) {
      if (x.merge !== undefined) { if (r[x.merge] !== true) return { fail: 'combining changes the other summary', show }; continue; }
      const g = r[x.at];
      for (const k of MAIN) if (!eq(m[k], g[k])) return { fail: `${k}: expected [total, covered, skipped, pct] ${JSON.stringify(m[k])} got ${JSON.stringify(g[k])}`, show };
      const e = m.branchesTrue, t = g.branchesTrue;
      if ((e === null) !== (t === null) || e && (!eq(e.slice(0, 3), t.slice(0, 3)) || !(t[3] === e[3] || t[0] === 0 && t[3] === 'Unknown'))) return { fail: `truthy branches: expected ${JSON.stringify(e)} got ${JSON.stringify(t)}`, show };
      if (g.empty !== (m.lines[0] === 0)) return { fail: 'is_empty is wrong', show };
    }
    return { nontrivial: sums.filter(s => s.lines[0] + s.branches[0] > 0).length >= 2, key: show, tags: ['summaries:' + n], show };
  },
};
