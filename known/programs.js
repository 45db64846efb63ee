'use strict';
// Exact reproductions of the listed findings: each returns true while the defect is there.
const vm = require('vm'), path = require('path');
const { transform, h } = require('../js/addon');
const C = require('../js/case');
function go(code, options = {}, { goal = 'script', filename = '/k.js', variable = '__coverage__' } = {}) {
  const r = transform(code, { goal, cjs: goal === 'module', options, filename });
  if (!r.ok) throw new Error('rejected: ' + r.message);
  const ctx = vm.createContext({ exports: {} });
  let value, error = null;
  try { value = vm.runInContext(r.code, ctx); } catch (e) { error = String(e); }
  const all = vm.runInContext(`globalThis[${JSON.stringify(variable)}]`, ctx);
  return { value, error, all, cov: all && all[filename], data: C.embedded(r.code) };
}
const at = (m, c) => Object.keys(m).find(k => m[k].start.line === 1 && m[k].start.column === c);
const CASES = {
  defaultName: () => go('(function (f = () => 1) { return f.name; })()').value !== 'f',
  fieldName: () => go('new (class { x = () => 1 })().x.name').value !== 'x',
  shadowedArray: () => go('(function () { var Array = 0; return (1 || 2); })()', { reportLogic: true }).error !== null,
  fieldFunctionCount: () => { const { cov } = go('class A { x = function () { return 1; } }'); return cov.s[at(cov.statementMap, 14)] !== 0; },
  laterFunctionCount: () => { const { cov } = go('var log = function () { throw 1; }; try { let a = log(), b = function () { return 1; }; } catch (e) {}'); return cov.s[at(cov.statementMap, 61)] !== 0; },
  laterTemplateCount: () => { const { cov } = go('var log = function () { throw 1; }; try { let a = log(), b = log`x`; } catch (e) {}'); return cov.s[at(cov.statementMap, 61)] !== 0; },
  astralColumn: () => { const { data } = go("var s = '😀', t = 1;"); return at(data.statementMap, 19) === undefined; },
  sameLineHint: () => at(go('var a = 1, b = 1; a; /* istanbul ignore next */ b;').data.statementMap, 48) !== undefined,
  firstOnLineHint: () => at(go('function q() { /* istanbul ignore next */ b(); }').data.statementMap, 42) !== undefined,
  withProxy: () => go('var n = 0; with (new Proxy({}, { has: () => true, get: () => 5 })) { n; }').error !== null,
  proxyTraps: () => go('var hits = 0, p = new Proxy({}, { getPrototypeOf() { hits++; return null; } }); p || 1; hits;', { reportLogic: true }).value !== 0,
  nullSource: e => { const map = { version: 3, sources: [null], names: [], mappings: '' }; return e.property === 'P16' ? !JSON.parse(h.optionsRoundtrip(JSON.stringify({ inputSourceMap: map }))).ok : !!JSON.parse(h.oxide(JSON.stringify([{ op: 'parse', text: JSON.stringify({ all: false, path: 'a', statementMap: {}, fnMap: {}, branchMap: {}, s: {}, f: {}, b: {}, inputSourceMap: map }) }])))[0].err; },
  loggedTemp: () => { const { all } = go('10n || 1;', { reportLogic: true }); try { JSON.stringify(all); return false; } catch (e) { return true; } },
  protoFilename: () => !Object.prototype.hasOwnProperty.call(go('1;', {}, { filename: '__proto__' }).all, '__proto__'),
};
module.exports = e => CASES[e.case](e);
