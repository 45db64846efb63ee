'use strict';
const O = require('./_oxide');
module.exports = {
  id: 'P25',
  quick: { cases: 50000 }, thorough: { cases: 1000000 },
  rule: 'Histories of 3-24 operations (new, from a list, clone, add, merge of maps, filter, lookup, summary) on up to 4 maps over 1-5 files, compared after every operation with an insertion-ordered path-keyed model; non-trivial = at least one path added twice to a map and one filter or map merge.',
  assumptions: O.ASSUME,
  gen: fc => fc.record({ ch: O.choices(fc, 600) }),
  run(c) {
    const ch = new O.Ch(c.ch), nf = 1 + ch.n(5), paths = O.shuffle(ch, O.PATHS).slice(0, nf);
    const worlds = paths.map(p => O.world(ch, { path: p })), objs = [], ops = [], models = [];
    const nobj = 2 + ch.n(7);
    for (let i = 0; i < nobj; i++) { const o = O.objectOf(ch, worlds[ch.n(nf)], { prefix: true, all: ch.p(10), partialLogic: true, maxCount: 50000 }); objs.push(o); ops.push({ op: 'parse', text: O.toText(o) }); }
    const canons = objs.map(O.canon), log = [], checks = [];
    const add = (m, x) => { m.set(x.path, m.has(x.path) ? O.merge(m.get(x.path), x) : O.clone(x)); };
    let twice = 0, bulk = 0;
    const snap = i => { ops.push({ op: 'map.dump', m: i }); checks.push([ops.length - 1, [...models[i]].map(([p, v]) => [p, O.text(v)]), log[log.length - 1]]); };
    const fresh = () => { ops.push({ op: 'map.new', alt: ch.n(2) === 1 }); models.push(new Map()); };
    fresh();
    const n = 3 + ch.n(22);
    for (let k = 0; k < n; k++) {
      const w = ch.n(20), i = ch.n(models.length);
      if (w < 9) { const a = ch.n(nobj); if (models[i].has(objs[a].path)) twice++; log.push(`add object ${a} to map ${i}`); ops.push({ op: 'map.add', m: i, a }); checks.push([ops.length - 1, true, 'add changes its argument']); add(models[i], canons[a]); snap(i); } else if (w < 11) { if (models.length < 4) { log.push('new'); fresh(); snap(models.length - 1); } } else if (w < 12) { if (models.length < 4) { const list = []; for (let q = ch.n(6); q > 0; q--) list.push(ch.n(nobj)); log.push('from ' + list); ops.push({ op: 'map.from', list }); models.push(new Map()); for (const a of list) { if (models[models.length - 1].has(objs[a].path)) twice++; add(models[models.length - 1], canons[a]); } snap(models.length - 1); } } else if (w < 13) { if (models.length < 4) { log.push('clone ' + i); ops.push({ op: 'map.clone', m: i }); models.push(new Map([...models[i]].map(([p, v]) => [p, O.clone(v)]))); snap(models.length - 1); } } else if (w < 16) {
        const j = ch.n(models.length); bulk++;
        if ([...models[j].values()].some(v => [...v.s.values()].some(x => x > 200000000) || [...v.b.values()].some(b => b.n.some(x => x > 200000000)))) continue; // keep sums in range
        log.push(`merge map ${j} into ${i}`); ops.push({ op: 'map.merge', m: i, n: j }); checks.push([ops.length - 1, true, 'merge changes its argument']);
        for (const v of [...models[j].values()].map(O.clone)) { if (models[i].has(v.path)) twice++; add(models[i], v); }
        snap(i); if (i !== j) snap(j);
      } else if (w < 18) { const keep = paths.filter(() => ch.n(3) > 0); bulk++; log.push(`filter map ${i} to ${JSON.stringify(keep)}`); ops.push({ op: 'map.filter', m: i, keep }); for (const p of [...models[i].keys()]) if (!keep.includes(p)) models[i].delete(p); snap(i); } else if (w < 19) { const p = ch.of(O.PATHS); log.push(`get ${p} of map ${i}`); ops.push({ op: 'map.get', m: i, path: p }); checks.push([ops.length - 1, models[i].has(p) ? { t: O.text(models[i].get(p)) } : null, `lookup of ${JSON.stringify(p)}`]); } else { log.push('summary of ' + i); ops.push({ op: 'map.summary', m: i }); snap(i); }
    }
    const show = ops.filter(o => o.text).map(o => o.text).join('\n') + '\n' + log.join('\n');
    const r = O.exec(ops);
    if (r.panic) return { fail: 'panic: ' + r.panic, show };
    if (r.err) return { fail: 'not read: ' + r.err, show };
    for (const [at, e, what] of checks) {
      const g = r[at];
      if (Array.isArray(e)) {
        const got = g.map(([p, t]) => { if (t === null) return [p, 'listed, but not found']; const cn = O.canon(JSON.parse(t)); return [p, cn.problems.length ? cn.problems.join(';') : O.text(cn)]; });
        const a = JSON.stringify(e), b = JSON.stringify(got);
        if (a !== b) return { fail: `after '${what}': ` + (e.map(x => x[0]).join('|') !== got.map(x => x[0]).join('|') ? `files are ${JSON.stringify(got.map(x => x[0]))}, not ${JSON.stringify(e.map(x => x[0]))}` : O.firstDifference(a, b)), show };
      } else if (e && e.t) { if (g === null || O.text(O.canon(JSON.parse(g))) !== e.t) return { fail: what + ' gives something else', show }; } else if (g !== e) return { fail: what + ': ' + JSON.stringify(g), show };
    }
    return { nontrivial: twice > 0 && bulk > 0, key: show, tags: ['maps:' + models.length, ...new Set(log.map(x => x.split(' ')[0]))], show };
  },
};
