'use strict';
const { C, analyse, ASSUME } = require('./_prog');
const O = require('./_oxide');
const { newWorld, runIn } = require('../exec');
const NM = process.env.VERIF_NODE_MODULES || '/opt/veriftools/node/node_modules';
const { createCoverageMap } = require(NM + '/istanbul-lib-coverage');
const NAMES = ['/src/a.js', '/src/b.js', 'C:\\src\\a.js', 'a b/é.js', ' ', '😀', '/src/A.js', '1', '0', '/src/a.js/', '"', 'constructor', './a.js'];
const MAIN = ['lines', 'statements', 'functions', 'branches'];
const sumInto = (a, b) => { for (const k in b) a[k] = (a[k] || 0) + b[k]; };
/** what the run leaves, written as JSON by the program's own engine; the slot of reportLogic (which holds any value) left out (known finding) */
function collect(code, req, covVar) {
  const w = newWorld(req), r = runIn(w, code, req);
  if (r.status !== 'ok') return { bad: r.status };
  const cv = w.g[covVar];
  return { text: cv === undefined ? null : JSON.stringify(cv, (k, v) => (/^cov_\d+_temp$/.test(k) ? undefined : v)) };
}
module.exports = {
  id: 'P29',
  quick: { cases: 4500 }, thorough: { cases: 250000 },
  rule: 'Sessions of 1-6 runs of 1-3 generated programs (odd file names, with and without reportLogic, different inputs per run), each run written with JSON.stringify; read into coverage maps with istanbul-oxide in a random order and grouping (also after a reset of one of the runs), compared entry by entry with the sums of the probe counts of all runs, and totals and percentages with a direct count and with istanbul-lib-coverage given the same texts; non-trivial = at least two runs of one file whose counts differ.',
  assumptions: [...ASSUME, 'with reportLogic the slot cov_<n>_temp, which holds the last operand, is left out of the JSON (known finding)', 'programs that register nothing (they throw first) contribute nothing'],
  gen: fc => {
    const nat = fc.noBias(fc.nat(0xffffff));
    const file = fc.record({ prog: fc.noBias(fc.array(nat, { minLength: 20, maxLength: 300, size: 'max' })), layout: fc.constant([]), goal: fc.noBias(fc.constantFrom('module', 'module', 'script')), name: fc.noBias(fc.nat(NAMES.length - 1)) });
    return fc.record({ files: fc.noBias(fc.array(file, { minLength: 1, maxLength: 3, size: 'max' })), logic: fc.noBias(fc.boolean()), runs: fc.noBias(fc.array(fc.record({ file: fc.noBias(fc.nat(5)), inputs: fc.noBias(fc.array(fc.nat(40), { minLength: 1, maxLength: 10, size: 'max' })), fuel: fc.noBias(fc.constantFrom(60, 30, 100)) }), { minLength: 1, maxLength: 6, size: 'max' })), ch: O.choices(fc, 40) });
  },
  run(c) {
    const ch = new O.Ch(c.ch), names = new Set(), files = [];
    for (const f of c.files) { let i = f.name; while (names.has(NAMES[i])) i = (i + 1) % NAMES.length; names.add(NAMES[i]); files.push({ ...f, filename: NAMES[i] }); }
    const io = { reportLogic: c.logic }, gopts = { banNames: ['Array', 'Object'], budget: 90 };
    const runs = [];
    let discard = null;
    for (const q of c.runs) {
      const f = files[q.file % files.length], k = { ...f, inputs: q.inputs, fuel: q.fuel };
      const a = analyse(k, io, gopts, {}, { filename: f.filename });
      if (a.discard) { discard = a.discard; continue; }
      if (a.fail) { discard = a.fail; continue; }
      f.src = a.out.src; f.code = a.out.inst.code;
      let w; try { w = collect(f.code, { cjs: f.goal === 'module', inputs: q.inputs, fuel: q.fuel }, '__coverage__'); } catch (e) { return { fail: 'the coverage cannot be written as JSON: ' + e.message, show: f.src.code }; }
      if (w.bad || w.text === null) { discard = 'does not run again'; continue; }
      runs.push({ f, text: w.text, counts: a.tw.counts, truthy: a.tw.truthy });
    }
    if (!runs.length) return { discard: discard || 'no run' };
    const show = () => files.filter(f => f.src).map(f => `--- ${f.goal} ${JSON.stringify(f.filename)}\n${f.src.code}`).join('\n') + '\n--- runs\n' + runs.map(r => r.text).join('\n');
    // the texts of the runs: one entry each
    const ops = [];
    for (const r of runs) {
      const d = JSON.parse(r.text), keys = Object.keys(d);
      if (keys.length !== 1 || keys[0] !== r.f.filename) return { fail: `the coverage of ${JSON.stringify(r.f.filename)} is registered under ${JSON.stringify(keys)}`, show: show() };
      r.slot = ops.length; ops.push({ op: 'parse', text: JSON.stringify(d[keys[0]]) });
    }
    // maps: the runs spread over up to three maps, those merged
    const nm = 1 + ch.n(3), order = O.shuffle(ch, runs);
    for (let i = 0; i < nm; i++) ops.push({ op: 'map.new', alt: ch.n(2) === 1 });
    if (ch.n(3) === 2) { const r = ch.of(runs); ops.push({ op: 'clone', a: r.slot }, { op: 'reset', a: runs.length }, { op: 'map.add', m: 0, a: runs.length }); } // never-executed coverage adds nothing
    for (const r of order) ops.push({ op: 'map.add', m: ch.n(nm), a: r.slot });
    for (let i = 1; i < nm; i++) ops.push({ op: 'map.merge', a: 0, b: i, m: 0, n: i });
    ops.push({ op: 'map.dump', m: 0 }, { op: 'map.summary', m: 0 });
    const res = O.exec(ops);
    if (res.panic) return { fail: 'istanbul-oxide panics: ' + res.panic, show: show() };
    if (res.err) return { fail: 'istanbul-oxide does not read it: ' + res.err, show: show() };
    const dump = new Map(res[res.length - 2].map(([p, t]) => [p, JSON.parse(t)])), total = res[res.length - 1];
    const ran = files.filter(f => runs.some(r => r.f === f));
    if (dump.size !== ran.length) return { fail: `the map has ${dump.size} files of ${ran.length}: ${[...dump.keys()].map(k => JSON.stringify(k))}`, show: show() };
    let varied = false;
    const ref = createCoverageMap({});
    for (const r of runs) { const d = JSON.parse(r.text); for (const k in d) delete d[k].bT; ref.merge(d); } // the reference merges truthiness counts of files with other branches to nulls
    for (const f of ran) {
      const mine = runs.filter(r => r.f === f), counts = {}, truthy = {};
      for (const r of mine) { sumInto(counts, r.counts); sumInto(truthy, r.truthy); }
      if (mine.length > 1 && JSON.stringify(mine[0].counts) !== JSON.stringify(mine[1].counts)) varied = true;
      const d = dump.get(f.filename);
      if (!d) return { fail: `${JSON.stringify(f.filename)} is not in the map`, show: show() };
      const bad = C.R.diff(C.R.expected(f.src, counts, truthy), C.R.reported(d, f.src), { reportLogic: c.logic }).filter(x => x.what !== 'function name');
      if (bad.length) return { fail: `${mine.length} run(s) of ${JSON.stringify(f.filename)} add up wrongly: ` + bad.slice(0, 5).map(x => JSON.stringify(x)).join('\n'), show: show() };
      // every function has the name the instrumenter gave it
      const nm0 = x => Object.values(x.fnMap).map(q => C.R.locKey(q.loc) + q.name).sort().join();
      if (nm0(d) !== nm0(JSON.parse(mine[0].text)[f.filename])) return { fail: 'function names change on the way', show: show() };
      const e = O.summary(d), l = ref.fileCoverageFor(f.filename).toSummary().toJSON();
      for (const k of MAIN) if (l[k].total !== e[k][0] || l[k].covered !== e[k][1]) return { fail: `${k} of ${JSON.stringify(f.filename)}: istanbul-lib-coverage finds ${l[k].covered}/${l[k].total}, here ${e[k][1]}/${e[k][0]}`, show: show() };
    }
    const want = ref.getCoverageSummary().toJSON();
    for (const k of MAIN) if (total[k][0] !== want[k].total || total[k][1] !== want[k].covered || total[k][3] !== Math.fround(want[k].pct)) return { fail: `total ${k}: expected ${JSON.stringify(want[k])} got ${JSON.stringify(total[k])}`, show: show() };
    if (c.logic !== (total.branchesTrue !== null)) return { fail: `reportLogic ${c.logic} but truthy totals ${JSON.stringify(total.branchesTrue)}`, show: show() };
    if (c.logic) {
      const all = ran.flatMap(f => Object.values(dump.get(f.filename).bT || {}).flat());
      if (total.branchesTrue[0] !== all.length || total.branchesTrue[1] !== all.filter(x => x > 0).length) return { fail: `truthy totals ${JSON.stringify(total.branchesTrue)}, counted ${all.length}`, show: show() };
    }
    return { nontrivial: varied, key: show(), tags: ['runs:' + runs.length, 'files:' + ran.length, 'maps:' + nm, ...(c.logic ? ['reportLogic'] : [])], show: show() };
  },
};
