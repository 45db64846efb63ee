'use strict';
const O = require('./_oxide');
module.exports = {
  id: 'P24',
  quick: { cases: 100000 }, thorough: { cases: 2500000 },
  rule: 'Percentages: every covered/total pair with total up to 400 (quick) or 3000 (thorough), plus generated 32-bit pairs biased to all-but-one, powers of two and truncation boundaries; summaries of generated coverage objects (also merged ones) against a direct count; non-trivial = a partially covered category.',
  assumptions: O.ASSUME,
  *enumerate(tier) { const max = tier === 'quick' ? 400 : 3000; for (let t = 0; t <= max; t++) yield { pairs: Array.from({ length: t + 1 }, (_, c) => [c, t]) }; },
  gen: fc => {
    const u32 = fc.noBias(fc.oneof(fc.nat(0xffffffff), fc.nat(1000), fc.nat(40).map(k => Math.min(0xffffffff, 2 ** Math.min(32, k) + 0)), fc.constantFrom(0xffffffff, 0xfffffffe, 99999, 100000, 100001, 42949673, 42950, 0x80000000, 10000, 9999)));
    const pair = fc.tuple(u32, u32, fc.noBias(fc.nat(7))).map(([a, b, k]) => { const t = Math.max(a, b); return k < 2 ? [Math.max(0, t - 1), t] : k === 2 ? [t, t] : k === 3 ? [Math.min(t, Number(BigInt(t) * BigInt(a % 10001) / 10000n)), t] : k === 4 ? [Math.min(t, Number(BigInt(t) * BigInt(a % 10001) / 10000n) + 1), t] : k === 5 ? [1, t || 1] : [Math.min(a, b), t]; });
    return fc.oneof({ weight: 1, arbitrary: fc.record({ pairs: fc.array(pair, { minLength: 1, maxLength: 60, size: 'max' }) }) }, { weight: 2, arbitrary: fc.record({ ch: O.choices(fc, 300) }) });
  },
  run(c) {
    if (c.pairs) {
      const r = O.exec([{ op: 'percent', pairs: c.pairs }]);
      if (r.panic) return { fail: 'percent panics: ' + r.panic, show: JSON.stringify(c.pairs) };
      for (let i = 0; i < c.pairs.length; i++) {
        const [a, t] = c.pairs[i], e = O.pctOf(a, t), g = r[0][i];
        if (e !== g) return { fail: `percentage of ${a}/${t}: expected ${e} got ${g}`, show: `${a}/${t}` };
        if (t > 0 && a < t && g >= 100) return { fail: `${a}/${t} reported as ${g}`, show: `${a}/${t}` };
      }
      return { n: c.pairs.length, nontrivial: c.pairs.some(([a, t]) => a > 0 && a < t), key: JSON.stringify(c.pairs), tags: ['percent'], show: JSON.stringify(c.pairs.slice(0, 20)) };
    }
    const ch = new O.Ch(c.ch), w = O.world(ch), d = O.objectOf(ch, w, { forms: true, prefix: true }), text = O.toText(d);
    const second = ch.n(4) === 3 ? O.objectOf(ch, w, {}) : null;
    const ops = [{ op: 'parse', text }];
    if (second) ops.push({ op: 'parse', text: O.toText(second) }, { op: 'merge', a: 0, b: 1 });
    const at = ops.length;
    ops.push({ op: 'dump', a: 0 }, { op: 'summary', a: 0 }, { op: 'dump', a: 0 });
    const r = O.exec(ops);
    if (r.panic) return { fail: 'summary panics: ' + r.panic, show: text };
    if (r.err) return { fail: 'not read: ' + r.err, show: text };
    if (r[at] !== r[at + 2]) return { fail: 'the summary changes the object', show: text };
    const e = O.summary(second ? JSON.parse(r[at]) : d), g = r[at + 1];
    for (const k of O.FIELDS) if (JSON.stringify(e[k]) !== JSON.stringify(g[k])) return { fail: `${k}: expected [total, covered, skipped, pct] ${JSON.stringify(e[k])} got ${JSON.stringify(g[k])}`, show: text };
    if (g.empty !== (e.lines[0] === 0)) return { fail: 'is_empty is wrong', show: text };
    return { nontrivial: O.FIELDS.some(k => e[k] && e[k][1] > 0 && e[k][1] < e[k][0]), key: text, tags: [second ? 'merged' : 'object'], show: text };
  },
};
