'use strict';
const { h } = require('../addon');
const { acorn, walk, literal } = require('../case');
const { sourceArb, render } = require('./_src');
const { huge } = require('./_prog');
const propName = n => !n.computed && n.property.type === 'Identifier' ? n.property.name : n.property.type === 'Literal' ? String(n.property.value) : null;
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const num = ks => ks.every(k => /^(0|[1-9]\d*)$/.test(k));
/** every place in the code that changes a counter, and the data object, found by the function that owns it */
function counters(ast) {
  let data = null, fn = null;
  walk.fullAncestor(ast, (n, _, anc) => {
    if (n.type !== 'ObjectExpression' || data) return;
    const keys = n.properties.map(p => p.type === 'Property' ? (p.key.name !== undefined ? p.key.name : String(p.key.value)) : null);
    if (!['statementMap', 'fnMap', 'branchMap', 's', 'f', 'b'].every(k => keys.includes(k))) return;
    const f = anc.slice(0, -1).reverse().find(a => a.type === 'FunctionDeclaration');
    if (f) { data = n; fn = f; }
  });
  if (!data) return null;
  const found = [];
  walk.full(ast, n => {
    const target = n.type === 'UpdateExpression' ? n.argument : n.type === 'AssignmentExpression' ? n.left : null;
    if (!target || target.type !== 'MemberExpression') return;
    const path = []; let q = target;
    while (q.type === 'MemberExpression') { path.unshift(propName(q)); q = q.object; }
    if (q.type !== 'CallExpression' || q.callee.type !== 'Identifier' || q.callee.name !== fn.id.name) return;
    if (['s', 'f', 'b', 'bT'].includes(path[0])) found.push({ path, ok: n.type === 'UpdateExpression' && n.operator === '++' || n.type === 'AssignmentExpression' && n.operator === '+=' && n.right.type === 'Literal' && n.right.value === 1 });
  });
  return { data: literal(data), found };
}
function wellFormed(d, logic) {
  const bad = [];
  for (const [m, c] of [['statementMap', 's'], ['fnMap', 'f'], ['branchMap', 'b']]) {
    if (!same(Object.keys(d[m]).sort(), Object.keys(d[c]).sort())) bad.push(`${m} and ${c} have different keys`);
    if (!num(Object.keys(d[c]))) bad.push(`ids of ${c} are not numeric`);
  }
  const loc = l => l && [l.start, l.end].every(p => p && Number.isInteger(p.line) && Number.isInteger(p.column) && p.line >= 0 && p.column >= 0);
  for (const k in d.statementMap) if (!loc(d.statementMap[k])) bad.push('statement location ' + k);
  for (const k in d.fnMap) if (!loc(d.fnMap[k].loc) || !loc(d.fnMap[k].decl) || typeof d.fnMap[k].name !== 'string' || !Number.isInteger(d.fnMap[k].line)) bad.push('function ' + k);
  for (const k in d.s) if (d.s[k] !== 0) bad.push('s ' + k + ' does not start at zero');
  for (const k in d.f) if (d.f[k] !== 0) bad.push('f ' + k + ' does not start at zero');
  for (const k in d.branchMap) {
    const b = d.branchMap[k];
    if (!Array.isArray(d.b[k]) || !d.b[k].length || d.b[k].some(v => v !== 0)) bad.push('counts of branch ' + k);
    if (!Array.isArray(b.locations) || b.locations.length !== (d.b[k] || []).length || !b.locations.every(loc)) bad.push(`branch ${k}: counts and locations disagree`);
    if (!['if', 'cond-expr', 'switch', 'binary-expr', 'default-arg'].includes(b.type)) bad.push('type of branch ' + k);
    if (!loc(b.loc)) bad.push('location of branch ' + k);
  }
  const logical = Object.keys(d.branchMap).filter(k => d.branchMap[k].type === 'binary-expr').sort(), t = Object.keys(d.bT || {}).sort();
  if (!same(t, logic ? logical : [])) bad.push(`truthiness counters for ${t} but logical branches are ${logic ? logical : 'not to be reported'}`);
  for (const k of t) if (!Array.isArray(d.bT[k]) || d.bT[k].length !== (d.b[k] || []).length || d.bT[k].some(v => v !== 0)) bad.push('truthiness counts of branch ' + k);
  return bad;
}
module.exports = {
  id: 'P03',
  quick: { cases: 20000 }, thorough: { cases: 600000 },
  rule: 'The sources of P02 (without odd names) under random reportLogic, ignoreClassMethods and goals; the emitted code is parsed and every update of a counter is matched with the embedded data; non-trivial = at least 5 entries.',
  assumptions: ['counters are updated in place through a call of the injected accessor (the shape the emitted code has today, `acc().s[id]++`)', 'sources whose output does not parse are left to P02'],
  gen: fc => fc.record({ src: sourceArb(fc, { env: true, ir: 8, maxDepth: 40 }), logic: fc.boolean(), methods: fc.noBias(fc.subarray(['m', 'foo', 'v0', 'p'])), cjs: fc.boolean() }),
  // more statements, branches and functions than 16 bits count
  enumerate: () => [0, 1, 5].map(i => ({ src: { kind: 'ir', hints: false, mut: [], ...huge(i) }, logic: i === 1, methods: [], cjs: false })),
  run(c) {
    const s = render(c.src);
    const cjs = s.goal === 'module' && c.cjs;
    const r = JSON.parse((s.deep ? h.transformDeep : h.transform)(s.code, JSON.stringify({ filename: '/v/f.js', syntax: s.syntax, goal: s.goal, ...s.req, cjs, options: JSON.stringify({ reportLogic: c.logic, ignoreClassMethods: c.methods }) })));
    if (!r.ok) return { discard: 'not emitted: ' + r.kind };
    let ast;
    try { ast = acorn.parse(r.code, { ecmaVersion: 'latest', sourceType: s.goal === 'module' && !cjs ? 'module' : 'script', allowReturnOutsideFunction: true, allowHashBang: true }); } catch (e) { return { discard: 'not parsable output (P02)' }; }
    const k = counters(ast);
    if (!k) return r.code.length > 900 && /coverage/.test(r.code) && !/ignore\s+file/.test(s.code) ? { fail: 'no coverage data object in the emitted code', show: s.code } : { discard: 'no coverage emitted' };
    const bad = wellFormed(k.data, c.logic);
    const want = new Map();
    for (const x of ['s', 'f']) for (const id in k.data[x]) want.set(`${x}.${id}`, 0);
    for (const x of ['b', 'bT']) for (const id in k.data[x] || {}) k.data[x][id].forEach((_, i) => want.set(`${x}.${id}.${i}`, 0));
    for (const f of k.found) {
      const key = f.path.join('.');
      if (!want.has(key)) bad.push(`the code updates ${key}, which is not an entry`);
      else want.set(key, want.get(key) + 1);
      if (!f.ok) bad.push(`${key} is not incremented by one`);
    }
    // the compiler itself drops pure operands of comma expressions after instrumentation: look before that
    if ([...want.values()].includes(0)) {
      const raw = JSON.parse((s.deep ? h.transformDeep : h.transform)(s.code, JSON.stringify({ filename: '/v/f.js', syntax: s.syntax, goal: s.goal, ...s.req, raw: true, options: JSON.stringify({ reportLogic: c.logic, ignoreClassMethods: c.methods }) })));
      if (raw.ok) for (const m of raw.code.matchAll(/cov_\d+\(\)\.(s|f|b|bT)\[(\d+)\](?:\[(\d+)\])?\+\+/g)) { const key = [m[1], m[2], ...(m[3] !== undefined ? [m[3]] : [])].join('.'); if (want.get(key) === 0) want.set(key, -1); else if (want.get(key) === -1) want.set(key, -2); }
      for (const [key, n] of want) if (n === -1) want.set(key, 1);
    }
    // the compiler drops and does not even print decorators of private members
    if ([...want.values()].includes(0) && s.req && s.req.decorators && /@/.test(s.code) && /#[\w\\]/.test(s.code)) return { discard: 'decorated private members' };
    for (const [key, n] of want) if (n !== 1) bad.push(`${key} is updated in ${n} places`);
    if (bad.length) return { fail: bad.slice(0, 6).join('\n'), show: '--- source (' + s.goal + ', ' + s.syntax + ', reportLogic ' + c.logic + ')\n' + s.code + '\n--- emitted\n' + r.code.replace(/^function cov_[\s\S]*?\n}\n/m, '') };
    return { nontrivial: want.size >= 5, key: s.code + c.logic, tags: [s.goal, 'logic:' + c.logic, ...s.tags], show: s.code };
  },
};
