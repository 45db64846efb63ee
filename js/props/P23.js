'use strict';
const O = require('./_oxide');
const mapOf = l => new Map(l.map(x => [x[0], x.slice(1)]));
const eq = (a, b) => JSON.stringify([...a].sort((x, y) => x[0] - y[0])) === JSON.stringify([...b].sort((x, y) => x[0] - y[0]));
module.exports = {
  id: 'P23',
  quick: { cases: 100000 }, thorough: { cases: 2500000 },
  rule: 'Generated coverage objects (many statements and branches per line, branches with a line, a location or both, any numbering), their line, uncovered-line and per-line branch reports compared with a direct computation; non-trivial = a line shared by several statements with different counts or by several branches.',
  assumptions: O.ASSUME,
  gen: fc => fc.record({ ch: O.choices(fc, 300) }),
  run(c) {
    const ch = new O.Ch(c.ch), w = O.world(ch), d = O.objectOf(ch, w, { forms: true });
    const merged = ch.n(4) === 3 ? O.objectOf(ch, w, { forms: true }) : null;
    const text = O.toText(d);
    const ops = [{ op: 'parse', text }];
    if (merged) ops.push({ op: 'parse', text: O.toText(merged) }, { op: 'merge', a: 0, b: 1 });
    const at = ops.length;
    ops.push({ op: 'dump', a: 0 }, { op: 'lines', a: 0 }, { op: 'uncovered', a: 0 }, { op: 'branchLines', a: 0 }, { op: 'dump', a: 0 });
    const r = O.exec(ops);
    if (r.panic) return { fail: 'reporting panics: ' + r.panic, show: text };
    if (r.err) return { fail: 'not read: ' + r.err, show: text };
    const [dump, lines, unc, bl, after] = r.slice(at);
    if (dump !== after) return { fail: 'reporting changes the object', show: text };
    const data = merged ? JSON.parse(dump) : d;
    const L = O.lines(data), B = O.branchLines(data);
    const gl = new Map(lines);
    if (gl.size !== lines.length) return { fail: 'a line is reported twice', show: text };
    if (!eq(L, gl)) return { fail: `line coverage: expected ${JSON.stringify([...L])} got ${JSON.stringify(lines)}`, show: text };
    const eu = [...L].filter(x => x[1] === 0).map(x => x[0]).sort((a, b) => a - b), gu = unc.slice().sort((a, b) => a - b);
    if (JSON.stringify(eu) !== JSON.stringify(gu)) return { fail: `uncovered lines: expected ${eu} got ${gu}`, show: text };
    const gb = mapOf(bl);
    if (gb.size !== bl.length || gb.size !== B.size) return { fail: `per-line branch report covers lines ${[...gb.keys()]} instead of ${[...B.keys()]}`, show: text };
    for (const [l, [cov, tot]] of B) {
      const g = gb.get(l);
      if (!g || g[0] !== cov || g[1] !== tot || Math.abs(g[2] - cov / tot * 100) > 1e-3) return { fail: `branches of line ${l}: expected ${cov}/${tot} (${cov / tot * 100}) got ${JSON.stringify(g)}`, show: text };
    }
    const perLine = {}; for (const [k, rg] of Array.isArray(data.statementMap) ? data.statementMap : Object.entries(data.statementMap)) (perLine[rg.start.line] = perLine[rg.start.line] || []).push(k);
    return { nontrivial: Object.values(perLine).some(x => x.length > 1) && B.size > 0, key: text, tags: [merged ? 'merged' : 'plain'], show: text };
  },
};
