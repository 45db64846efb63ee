'use strict';
// One generated program through the whole chain.
const { generate, HUGE } = require('./gen');
const { printSource, printTwin } = require('./print');
const { transform } = require('./addon');
const { run, firstDiff } = require('./exec');
const R = require('./report');
const NM = process.env.VERIF_NODE_MODULES || '/opt/veriftools/node/node_modules';
const acorn = require(NM + '/acorn'), walk = require(NM + '/acorn-walk');

/**
 * Where in the compiler the program is instrumented, c.mode:
 *   ''        as parsed, plain JavaScript
 *   ts        TypeScript, before its types, namespaces and enums are lowered (runPluginFirst)
 *   tsLate    TypeScript, after the types are stripped
 *   dec2022, dec2021, decLegacy   with decorators, before they are lowered
 *   decLate   with decorators, after they are lowered
 */
function modeOf(c) {
  switch (c.mode || '') {
    case '': return null;
    case 'ts': return { gopts: { ts: true, namespaces: true }, popts: { ann: c.ann || [] }, treq: { syntax: 'ts', first: true, proposals: true, decorators: 'legacy' } };
    case 'tsLate': return { gopts: { ts: true }, popts: { ann: c.ann || [] }, treq: { syntax: 'ts', proposals: true, decorators: 'legacy' } };
    case 'dec2022': case 'dec2021': return { goal: 'module', gopts: { decorators: 'decl', plainClassExprKeys: c.mode === 'dec2022' }, popts: {}, treq: { first: true, proposals: true, decorators: c.mode.slice(3) } };
    case 'decLegacy': return { goal: 'module', gopts: { decorators: 'decl', ts: true, namespaces: true }, popts: { ann: c.ann || [] }, treq: { syntax: 'ts', first: true, proposals: true, decorators: 'legacy' } };
    case 'decLate': return { goal: 'module', gopts: { decorators: 'all' }, popts: {}, treq: { proposals: true, decorators: '2022' } };
  }
  throw new Error('mode ' + c.mode);
}
function build(c, gopts = {}, popts = {}) {
  const m = modeOf(c);
  const goal = (m && m.goal) || c.goal || 'module';
  // one program in 32 has a part of unusual size
  const scale = c.scale >= HUGE ? c.scale : c.scale % 32 === 31 ? Math.floor(c.scale / 32) + 1 : 0;
  const p = generate(c.prog, { ...gopts, ...(m && m.gopts), goal, scale });
  const src = printSource(p, c.layout && c.layout.length ? c.layout : null, { ...popts, ...(m && m.popts) });
  return { p, src, goal, cjs: goal === 'module', req: m ? m.treq : {}, treq: { ...(m ? m.treq : {}), ...(scale ? { deep: true } : {}) } };
}
/** original, instrumented, twin */
function execute(c, gopts = {}, popts = {}, iopts = {}, treq0 = {}) {
  const { p, src, goal, cjs, treq } = build(c, gopts, popts);
  const base = { goal, cjs, ...treq, ...treq0 };
  const out = { p, src, goal, base };
  const orig = transform(src.code, { ...base, options: null });
  if (!orig.ok) { out.discard = 'original rejected: ' + orig.message; return out; }
  // the compiler's own: `return (/* two lines */ a)` loses its parentheses before some expressions
  if (/\b(?:return|yield)[ \t]*\/\*(?:[^*\n]|\*(?!\/))*\n/.test(orig.code)) { out.discard = 'compiled to a return without its value'; return out; }
  const req = { cjs, inputs: c.inputs, fuel: c.fuel || 80 };
  out.orig = run(orig.code, req);
  if (out.orig.status === 'syntax' || out.orig.earlyError) { out.discard = 'original does not run: ' + (out.orig.message || out.orig.earlyError); return out; }
  if (out.orig.status !== 'ok') { out.discard = out.orig.status; return out; }
  const inst = transform(src.code, { ...base, options: iopts });
  out.inst = inst;
  if (!inst.ok) { out.fail = 'instrumentation failed: ' + inst.message; return out; }
  out.run = run(inst.code, { ...req, covVar: iopts.coverageVariable });
  if (out.run.status === 'timeout') out.discard = 'timeout';
  return out;
}
function twin(out, c) {
  const tw = printTwin(out.p);
  const t = transform(tw.code, { ...out.base, options: null });
  if (!t.ok) return (out.twin = { status: 'rejected', message: t.message, counts: {}, truthy: {} }, out.twinCode = tw.code, out.twin);
  out.twin = run(t.code, { cjs: out.base.cjs, inputs: c.inputs, fuel: c.fuel || 80 });
  out.twinCode = tw.code;
  return out.twin;
}
const instrument = (code, req) => transform(code, req);
/** the coverage data object embedded in emitted code, whatever it is called, as plain data */
function embedded(code) {
  let ast;
  try { ast = acorn.parse(code, { ecmaVersion: 'latest', sourceType: 'script', allowReturnOutsideFunction: true, allowAwaitOutsideFunction: true, allowSuperOutsideMethod: true }); } catch (e) {
    try { ast = acorn.parse(code, { ecmaVersion: 'latest', sourceType: 'module' }); } catch (e2) { return null; }
  }
  return dataObject(ast);
}
function dataObject(ast) {
  let found = null;
  walk.full(ast, n => {
    if (n.type !== 'ObjectExpression' || found) return;
    const keys = n.properties.map(p => p.type === 'Property' && !p.computed ? (p.key.name !== undefined ? p.key.name : String(p.key.value)) : null);
    if (['statementMap', 'fnMap', 'branchMap', 's', 'f', 'b'].every(k => keys.includes(k))) found = n;
  });
  return found && literal(found);
}
function literal(n) {
  switch (n.type) {
    case 'Literal': return n.value;
    case 'UnaryExpression': return n.operator === '-' ? -literal(n.argument) : n.operator === '!' ? !literal(n.argument) : undefined;
    case 'Identifier': return undefined; // undefined
    case 'TemplateLiteral': return n.quasis.map(q => q.value.cooked).join('');
    case 'ArrayExpression': return n.elements.map(literal);
    case 'ObjectExpression': { const o = {}; for (const p of n.properties) Object.defineProperty(o, p.key.type === 'Identifier' && !p.computed ? p.key.name : String(literal(p.key)), { value: literal(p.value), enumerable: true, writable: true, configurable: true }); return o; }
  }
  throw new Error('not a literal: ' + n.type);
}
module.exports = { instrument, embedded, dataObject, literal, acorn, walk, build, execute, twin, R, firstDiff };
