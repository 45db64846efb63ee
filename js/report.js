'use strict';
// Expected coverage report (from the printed source and the probed twin) against the real one.
const locKey = l => `${l.start.line}:${l.start.column}-${l.end.line}:${l.end.column}`;
const rngKey = r => `${r[0].line}:${r[0].column}-${r[1].line}:${r[1].column}`;
function group(list, key) { const m = new Map(); for (const e of list) { const k = key(e); if (!m.has(k)) m.set(k, []); m.get(k).push(e); } return m; }
/** expected entries as plain lists; `counts`/`truthy` from the twin run */
function expected(src, counts, truthy, opts = {}) {
  const n = id => counts[id] || 0;
  const s = [], f = [], b = [];
  for (const e of src.s) {
    if (opts.stmtFilter && !opts.stmtFilter(e)) continue;
    // an exported const whose initialiser holds functions without blocks is counted once, as the declaration
    if (e.kind === 'init' && e.exportDecl && e.dk === 'const' && e.arrowOnly) continue;
    s.push({ key: rngKey(e.loc), kind: e.kind, count: n(e.id), ign: e.ign, opt: e.opt });
  }
  for (const e of src.f) f.push({ key: rngKey(e.loc), decl: rngKey(e.decl), name: e.name, kind: e.kind, count: n(e.id), ign: e.ign, opt: e.opt });
  for (const e of src.b) {
    const paths = e.paths.filter(p => !p.drop);
    if (!paths.length) continue;
    b.push({ key: e.type + '@' + rngKey(e.loc), type: e.type, ign: e.ign, opt: e.opt, paths: paths.map(p => ({ key: rngKey(p.loc), count: n(p.id), truthy: truthy ? truthy[p.tid] || 0 : 0 })) });
  }
  return { s, f, b };
}
function reported(cov, src) {
  const s = Object.keys(cov.statementMap).map(k => ({ id: k, key: locKey(cov.statementMap[k]), count: cov.s[k] }));
  const f = Object.keys(cov.fnMap).map(k => ({ id: k, key: locKey(cov.fnMap[k].loc), decl: locKey(cov.fnMap[k].decl), name: cov.fnMap[k].name, count: cov.f[k], line: cov.fnMap[k].line, start: cov.fnMap[k].loc.start.line }));
  const b = Object.keys(cov.branchMap).map(k => ({ id: k, type: cov.branchMap[k].type, line: cov.branchMap[k].line, start: cov.branchMap[k].loc.start.line, key: cov.branchMap[k].type + '@' + locKey(cov.branchMap[k].loc), paths: cov.branchMap[k].locations.map((l, i) => ({ key: locKey(l), count: cov.b[k][i], truthy: cov.bT && cov.bT[k] ? cov.bT[k][i] : undefined })) }));
  return { s, f, b };
}
/** differences per category: stmtCount, fnCount, branchCount, logic, missing, extra, loc */
function diff(exp, rep, o = {}) {
  const out = [];
  // an optional entry (inside a hinted operand) is expected when it is there, and then with its count
  const kept = (list, rep) => { const left = group(rep, e => e.key); const n = new Map(); const out = list.filter(e => !e.ign && !e.opt); for (const e of out) n.set(e.key, (n.get(e.key) || 0) + 1); for (const e of list) if (!e.ign && e.opt && (n.get(e.key) || 0) < (left.get(e.key) || []).length) { n.set(e.key, (n.get(e.key) || 0) + 1); out.push(e); } return out; };
  const es = kept(exp.s, rep.s), ef = kept(exp.f, rep.f), eb = kept(exp.b, rep.b);
  const gs = group(es, e => e.key), rs = group(rep.s, e => e.key);
  for (const [k, list] of gs) {
    const r = rs.get(k) || [];
    const need = list.length, have = r.length;
    if (have < need) { out.push({ cat: 'missing', what: 'statement', kind: list.map(e => e.kind).join('+'), key: k }); continue; }
    const a = list.map(e => e.count).sort((x, y) => x - y).join(), c = r.map(e => e.count).sort((x, y) => x - y).join();
    if (have > need) out.push({ cat: 'extra', what: 'statement', kind: list.map(e => e.kind).join('+'), key: k, have, need });
    else if (a !== c) out.push({ cat: 'stmtCount', kind: list.map(e => e.kind).join('+'), key: k, expected: a, reported: c });
  }
  for (const [k, list] of rs) if (!gs.has(k)) out.push({ cat: 'extra', what: 'statement', key: k, n: list.length });
  // functions, keyed by body range
  const gf = group(ef, e => e.key), rf = group(rep.f, e => e.key);
  for (const [k, list] of gf) {
    const r = rf.get(k) || [];
    if (r.length < list.length) { out.push({ cat: 'missing', what: 'function', kind: list.map(e => e.kind).join(), key: k }); continue; }
    if (r.length > list.length) { out.push({ cat: 'extra', what: 'function', key: k }); continue; }
    for (let i = 0; i < list.length; i++) {
      const e = list[i], q = r[i];
      if (e.count !== q.count) out.push({ cat: 'fnCount', kind: e.kind, key: k, expected: e.count, reported: q.count });
      if (e.decl !== q.decl) out.push({ cat: 'loc', what: 'function decl', kind: e.kind, key: k, expected: e.decl, reported: q.decl });
      if (q.line !== q.start) out.push({ cat: 'loc', what: 'function line', kind: e.kind, key: k, expected: q.start, reported: q.line });
      if (e.name != null ? e.name !== q.name : q.name !== `(anonymous_${q.id})` && !(e.kind.startsWith('class-') || e.kind.startsWith('obj-'))) out.push({ cat: 'loc', what: 'function name', kind: e.kind, key: k, expected: e.name, reported: q.name });
    }
  }
  for (const [k] of rf) if (!gf.has(k)) out.push({ cat: 'extra', what: 'function', key: k });
  // branches
  const gb = group(eb, e => e.key), rb = group(rep.b, e => e.key);
  for (const [k, list] of gb) {
    const r = rb.get(k) || [];
    if (r.length !== list.length) { out.push({ cat: r.length < list.length ? 'missing' : 'extra', what: 'branch', kind: list[0].type, key: k }); continue; }
    for (let i = 0; i < list.length; i++) {
      const e = list[i], q = r[i];
      if (q.line !== q.start) out.push({ cat: 'loc', what: 'branch line', kind: e.type, key: k, expected: q.start, reported: q.line });
      const ep = e.paths.map(p => p.key).join(' '), qp = q.paths.map(p => p.key).join(' ');
      if (e.paths.length !== q.paths.length) { out.push({ cat: e.paths.length > q.paths.length ? 'missing' : 'extra', what: 'branch path', kind: e.type, key: k, expected: ep, reported: qp }); continue; }
      if (ep !== qp) { out.push({ cat: 'loc', what: 'branch path', kind: e.type, key: k, expected: ep, reported: qp }); continue; }
      const ec = e.paths.map(p => p.count).join(), qc = q.paths.map(p => p.count).join();
      if (ec !== qc) out.push({ cat: 'branchCount', kind: e.type, key: k, expected: ec, reported: qc });
      if (o.reportLogic) {
        if (e.type === 'binary-expr') {
          const et = e.paths.map(p => p.truthy).join(), qt = q.paths.map(p => p.truthy).join();
          if (et !== qt) out.push({ cat: 'logic', key: k, expected: et, reported: qt });
        } else if (q.paths.some(p => p.truthy !== undefined)) out.push({ cat: 'logic', key: k, what: 'truthiness counter on a non-logical branch' });
      }
    }
  }
  for (const [k] of rb) if (!gb.has(k)) out.push({ cat: 'extra', what: 'branch', key: k });
  return out;
}
module.exports = { locKey, rngKey, expected, reported, diff };
