'use strict';
// Runs emitted code in a fresh realm and returns what a user could observe of it.
const vm = require('vm');
process.on('unhandledRejection', () => {}); // programs under test reject promises nobody handles

const PRELUDE = new vm.Script(`(function (g, inputs, fuel0) {
  'use strict';
  var trace = [], fuel = fuel0, depth = 0, pos = 0, counts = Object.create(null), truthy = Object.create(null);
  var assign = Object.assign, apply = Reflect.apply, construct = Reflect.construct, Prom = Promise, Err = Error, ObjProto = Object.prototype; var gopd = Object.getOwnPropertyDescriptor, keys = Reflect.ownKeys, isArray = Array.isArray, getProto = Object.getPrototypeOf, St = String;
  Object.defineProperty(Error.prototype, 'toString', { value: function () { return 'ERR:' + this.name; }, configurable: true, writable: true, enumerable: false });
  Object.defineProperty(Function.prototype, 'toString', { value: function () { return 'FN:' + this.name; }, configurable: true, writable: true, enumerable: false });
  function repr(v, d) {
    switch (typeof v) {
      case 'string': return v.length > 200 ? 's' + v.length : 's:' + v;
      case 'number': return (v === 0 && 1 / v < 0) ? '-0' : St(v);
      case 'undefined': return 'undefined';
      case 'boolean': return St(v);
      case 'bigint': return v + 'n';
      case 'symbol': return 'symbol';
      case 'function': return 'fn(' + gd(v, 'name') + ',' + gd(v, 'length') + (d > 0 ? props(v, d - 1) : '') + ')';
    }
    if (v === null) return 'null';
    if (v === g) return 'GLOBAL';
    if (v instanceof Err) return 'E:' + v.name;
    if (d <= 0) return isArray(v) ? 'arr' + v.length : 'obj';
    if (v instanceof Prom) return 'promise';
    return (isArray(v) ? '[' : '{') + props(v, d - 1) + (isArray(v) ? ']' : '}') + (getProto(v) === ObjProto || isArray(v) ? '' : '^');
  }
  function gd(v, k) { var x = gopd(v, k); return x === undefined ? '-' : 'value' in x ? repr(x.value, 0) : 'acc'; }
  function props(v, d) {
    var r = '', ks = keys(v);
    if (isArray(v) && v.length > 50) return 'long' + v.length;
    for (var i = 0; i < ks.length && i < 40; i++) {
      var k = ks[i]; if (typeof v === 'function' && (k === 'name' || k === 'length' || k === 'arguments' || k === 'caller')) continue;
      var x = gopd(v, k); if (!x) continue;
      r += (typeof k === 'symbol' ? 'sym' : k) + (x.enumerable ? '' : '!') + ':' + ('value' in x ? repr(x.value, d) : (x.get ? 'get' : '') + (x.set ? 'set' : '')) + ',';
    }
    return r;
  }
  function t(k, v) { if (trace.length < 3000) trace.push(k + '=' + repr(v, 2)); return v; }
  var V = [0, 1, '', 'a', null, undefined, true, false, [], [0, 1], {}, { p: 1 }, { p: undefined, q: [1] }, NaN, 5, [undefined, [1]], { p: { p: 2 }, q: 0 }, function inp() { return 3; }];
  function I() { var c = inputs.length ? inputs[pos++ % inputs.length] : 0; c = c % V.length; var v = V[c]; return isArray(v) ? v.slice() : v && typeof v === 'object' ? assign({}, v) : v; }
  function F(v) { if (fuel-- <= 0) return false; return !!v; }
  function drain(it, n) {
    var r = it.next(1);
    if (r && typeof r.then === 'function') { r.then(function (q) { trace.push('an:' + repr(q, 2)); if (q && !q.done && n > 0 && fuel-- > 0) drain(it, n - 1); }, function (e) { trace.push('ar:' + repr(e, 1)); }); return; }
    trace.push('n:' + repr(r, 2)); if (!r.done && n > 0 && fuel-- > 0) drain(it, n - 1); else if (!r.done) { trace.push('ret:' + repr(it.return(9), 2)); }
  }
  function C(f) {
    if (fuel-- <= 0 || depth > 40) return 0;
    var a = []; for (var i = 1; i < arguments.length; i++) a.push(arguments[i]);
    depth++;
    try {
      var r;
      if (typeof f === 'function' && isClass(f)) r = construct(f, a); else if (typeof f === 'function') r = apply(f, { self: 1 }, a); else return f;
      if (r !== null && typeof r === 'object') {
        if (typeof r.then === 'function') { r.then(function (v) { trace.push('res:' + repr(v, 2)); }, function (e) { trace.push('rej:' + repr(e, 1)); }); return 'P'; }
        if (typeof r.next === 'function') { drain(r, 5); return 'G'; }
      }
      return r;
    } finally { depth--; }
  }
  function isClass(f) { var d = gopd(f, 'prototype'); return d !== undefined && d.writable === false; }
  function X(k) { trace.push('throw' + k); throw { x: k }; }
  function K(f) { return typeof f === 'function' ? apply(f, undefined, []) : 0; }
  function N(Cls) {
    if (fuel-- <= 0) return 0;
    var o = new Cls(1, undefined); trace.push('new:' + repr(o, 2));
    return o;
  }
  class B { constructor() { trace.push('B'); this.base = 1; } m() { trace.push('B.m'); } }
  var strs = [], tcalls = 0;
  function TAG(s) { var i = strs.indexOf(s); if (i < 0) { strs.push(s); i = strs.length - 1; } trace.push('tag' + i + s.join('|')); return arguments.length > 1 ? arguments[1] : 0; }
  function M(o) { // exercises every own method / accessor of an object or class
    if (o === null || (typeof o !== 'object' && typeof o !== 'function')) return;
    var ks = keys(o);
    for (var i = 0; i < ks.length; i++) {
      var k = ks[i]; if (k === 'constructor' || k === 'prototype' || k === 'stack' || k === 'name' || k === 'length' || k === 'arguments' || k === 'caller') continue;
      var x = gopd(o, k);
      try {
        if (x.get) trace.push('get ' + St(k) + repr(x.get.call(o), 1));
        if (x.set) { x.set.call(o, undefined); trace.push('set ' + St(k)); }
        if (typeof x.value === 'function') trace.push('m ' + St(k) + repr(C(x.value), 1));
      } catch (e) { trace.push('mthrow ' + repr(e, 1)); }
    }
  }
  function CX(o) { // drives exported values
    function at(f) { try { f(); } catch (e) { trace.push('xthrow ' + repr(e, 1)); } }
    if (typeof o === 'function') {
      at(function () { M(o); });
      if (o.prototype && typeof o.prototype === 'object') at(function () { M(o.prototype); });
      var isC = isClass(o);
      at(function () { trace.push('x:' + repr(isC ? N(o) : C(o), 1)); });
      if (!isC) at(function () { trace.push('x2:' + repr(C(o, [1, [2]], [{}]), 1)); });
    } else at(function () { M(o); });
  }
  function DEC(v) { // a decorator under every proposal: says what it was given and changes nothing
    trace.push('dec' + repr(v, 1));
    return function () {
      var r = 'DEC', a = arguments, c = a[1];
      for (var i = 0; i < a.length; i++) { r += ' ' + typeof a[i]; if (a[i] && typeof a[i] === 'object') r += ':' + gd(a[i], 'kind') + gd(a[i], 'name') + gd(a[i], 'key') + gd(a[i], 'static') + gd(a[i], 'placement'); }
      trace.push(r);
      if (c && c.kind === 'field') return function (w) { trace.push('init' + repr(w, 1)); return w; };
    };
  }
  // identifiers whose reads can be observed, and calls which look like the injected ones
  for (var gi = 0; gi < 2; gi++) (function (n) { Object.defineProperty(g, n, { get: function () { if (trace.length < 3000) trace.push(n); return I(); }, enumerable: false, configurable: true }); })('G' + gi);
  var store = { s: [0, 0], b: [[0, 0]], f: [0, 0, 0], hits: [0], cov: 0 };
  function covered() { trace.push('store' + repr(store, 2)); return store; }
  var api = { covered: covered, cov_user: covered, cov_1: covered, T: function (v) { return v === g || tcalls++ > 250 ? 'GLOBAL' : v; }, M: M, t: t, I: I, F: F, C: C, X: X, K: K, N: N, B: B, TAG: TAG, DEC: DEC,
    __p: function (i) { counts[i] = (counts[i] || 0) + 1; }, __q: function (i, v) { if (nontrivial(v)) truthy[i] = (truthy[i] || 0) + 1; return v; } };
  // documented reportLogic truthiness: falsy, empty array and empty plain object are not "true"
  function nontrivial(v) { return !!(v && (!isArray(v) || v.length) && (getProto(v) !== ObjProto || keys(v).some(function (k) { return typeof k === 'string' && gopd(v, k).enumerable; }))); }
  for (var k in api) Object.defineProperty(g, k, { value: api[k], writable: true, enumerable: false, configurable: true });
  return { trace: trace, counts: counts, truthy: truthy, repr: repr, M: M, CX: CX, spent: function () { return fuel0 - fuel; } };
})`);

/**
 * goal 'script': run directly; 'module'/'program' CommonJS-transformed code: run in a wrapper.
 * returns {status: 'ok'|'timeout'|'syntax', ...observation}
 */
function newWorld(req) {
  const sandbox = vm.createContext({}, { microtaskMode: 'afterEvaluate' });
  const g = vm.runInContext('globalThis', sandbox);
  const rt = PRELUDE.runInContext(sandbox)(g, req.inputs || [], req.fuel || 120);
  const before = new Set(Object.getOwnPropertyNames(g));
  return { sandbox, g, rt, before };
}
function runIn(world, code, req) {
  const { sandbox, g, rt } = world;
  const res = { status: 'ok', completion: 'normal', exports: null };
  let src = code;
  if (req.cjs) src = `(function(exports, module){${code}\n})(globalThis.__m.exports, globalThis.__m);`;
  let script;
  try { script = new vm.Script(src, { filename: 'case.js' }); } catch (e) { return { status: 'syntax', message: String(e && e.message) }; }
  if (req.cjs) Object.defineProperty(g, '__m', { value: vm.runInContext('({exports:{}})', sandbox), configurable: true, enumerable: false, writable: true });
  const timeout = req.timeout || 3000;
  try { script.runInContext(sandbox, { timeout }); } catch (e) {
    if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') return { status: 'timeout' };
    res.completion = 'throw ' + rt.repr(e, 1);
    if (e instanceof SyntaxError || (e && e.name === 'SyntaxError')) res.earlyError = String(e.message);
  }
  // what is registered before anything exported is called
  if (req.covVar !== undefined) { const d = Object.getOwnPropertyDescriptor(g, req.covVar); res.loaded = d && d.value && typeof d.value === 'object' ? Object.keys(d.value) : []; }
  try {
    if (req.cjs) {
      // exported values, then drive them
      res.exports = rt.repr(g.__m.exports, 2);
      g.__cx = rt.CX; g.__keys = Object.getOwnPropertyNames(g.__m.exports);
      if (req.drive !== false) vm.runInContext('(function(){var ks=__keys,cx=__cx,m=__m.exports;delete globalThis.__keys;delete globalThis.__cx;for(var i=0;i<ks.length;i++){if(ks[i]!=="__esModule"){var v;try{v=m[ks[i]]}catch(e){continue}cx(v)}}})()', sandbox, { timeout });
    } else if (req.drive !== false) {
      const names = Object.getOwnPropertyNames(g).filter(n => !world.before.has(n) && typeof g[n] === 'function' && !isCovFn(g, n));
      g.__cx = rt.CX; g.__vals = names.sort().map(n => g[n]);
      vm.runInContext('(function(){var vs=__vals,cx=__cx;delete globalThis.__vals;delete globalThis.__cx;for(var i=0;i<vs.length;i++)cx(vs[i])})()', sandbox, { timeout });
    }
  } catch (e) { if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') return { status: 'timeout' }; res.driveError = rt.repr(e, 1); }
  res.trace = Array.from(rt.trace);
  return res;
}
function isCovFn(g, n) { return /^cov_\d+$/.test(n); }
const IGNORED_GLOBALS = new Set(['__m', '__coverage__']);
function globalsOf(world, covVar) {
  const r = {};
  for (const n of Object.getOwnPropertyNames(world.g)) {
    if (world.before.has(n) || IGNORED_GLOBALS.has(n) || n === covVar || isCovFn(world.g, n)) continue;
    const d = Object.getOwnPropertyDescriptor(world.g, n);
    r[n] = ('value' in d ? world.rt.repr(d.value, 2) : 'acc') + (d.enumerable ? 'e' : '') + (d.configurable ? 'c' : '');
  }
  return r;
}
const FIELDS = ['all', 'path', 'statementMap', 'fnMap', 'branchMap', 's', 'f', 'b', 'bT', 'inputSourceMap', '_coverageSchema', 'hash'];
/** registered coverage as plain data (with reportLogic the object also holds the last operand value, which may be anything) */
function plainCoverage(cv) {
  const r = {};
  for (const p of Object.keys(cv)) { const o = {}; for (const k of FIELDS) if (Object.prototype.hasOwnProperty.call(cv[p], k)) o[k] = JSON.parse(JSON.stringify(cv[p][k])); Object.defineProperty(r, p, { value: o, enumerable: true, configurable: true, writable: true }); }
  return r;
}
function run(code, req = {}) {
  const w = newWorld(req);
  const res = runIn(w, code, req);
  if (res.status !== 'ok') return res;
  res.globals = globalsOf(w, req.covVar);
  const cv = w.g[req.covVar || '__coverage__'];
  if (cv !== undefined) { try { res.coverage = plainCoverage(cv); } catch (e) { res.coverageError = String(e); } }
  res.counts = { ...w.rt.counts }; res.truthy = { ...w.rt.truthy }; res.spent = w.rt.spent();
  return res;
}
/** the observation as a comparable string */
function observe(r) { return JSON.stringify({ c: r.completion, e: r.exports, t: r.trace, g: r.globals, d: r.driveError }); }
function firstDiff(a, b) {
  for (const k of ['completion', 'exports', 'driveError']) if (a[k] !== b[k]) return `${k}: ${a[k]} vs ${b[k]}`;
  for (let i = 0; i < Math.max(a.trace.length, b.trace.length); i++) if (a.trace[i] !== b.trace[i]) return `trace[${i}]: ${a.trace[i]} vs ${b.trace[i]} (previous ${a.trace[i - 1]})`;
  const ga = JSON.stringify(a.globals), gb = JSON.stringify(b.globals);
  if (ga !== gb) return `globals: ${ga} vs ${gb}`;
  return null;
}
module.exports = { plainCoverage, run, observe, firstDiff, newWorld, runIn, globalsOf };
