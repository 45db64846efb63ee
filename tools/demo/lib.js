// Helpers for demo.js: instrument(source, {goal, filename, options}) -> emitted text; run(code) -> coverage of the file.
const { execFileSync } = require('child_process'); const fs = require('fs'); const path = require('path'); const vm = require('vm');
const dir = process.env.SCRATCH; let n = 0;
function instrument(source, o = {}) {
  const a = path.join(dir, `in${n}.js`), b = path.join(dir, `out${n++}.js`);
  fs.writeFileSync(a, source);
  execFileSync(process.env.DEMO, [o.goal || 'script', o.filename || '/src/a.js', JSON.stringify(o.options || {}), a, b], { stdio: ['ignore', 'ignore', 'inherit'] });
  return fs.readFileSync(b, 'utf8');
}
// several sources by one process: [[source, filename, options], ...]
function instrumentAll(list) {
  const args = []; const outs = [];
  for (const [source, filename, options] of list) {
    const a = path.join(dir, `in${n}.js`), b = path.join(dir, `out${n++}.js`); fs.writeFileSync(a, source);
    args.push('script', filename, JSON.stringify(options || {}), a, b); outs.push(b);
  }
  execFileSync(process.env.DEMO, args, { stdio: ['ignore', 'ignore', 'inherit'] });
  return outs.map(f => fs.readFileSync(f, 'utf8'));
}
function context(globals = {}) { const c = vm.createContext({}); Object.defineProperties(c, Object.getOwnPropertyDescriptors(globals)); return c; }
function run(code, globals, variable = '__coverage__', file = '/src/a.js') {
  const c = context(globals); let error; try { vm.runInContext(code, c); } catch (e) { error = e; }
  const all = vm.runInContext(`this[${JSON.stringify(variable)}]`, c);
  return { c, error, cov: all && all[file] };
}
// text of a location
function text(source, r) {
  const l = source.split('\n');
  return r.start.line === r.end.line ? l[r.start.line - 1].slice(r.start.column, r.end.column)
    : [l[r.start.line - 1].slice(r.start.column), ...l.slice(r.start.line, r.end.line - 1), l[r.end.line - 1].slice(0, r.end.column)].join('\n');
}
// counts of the statements by their text
function statements(source, cov) { const r = {}; for (const k in cov.statementMap) { const t = text(source, cov.statementMap[k]); r[t] = (r[t] || 0) + cov.s[k]; } return r; }
function functions(cov) { const r = {}; for (const k in cov.fnMap) r[cov.fnMap[k].name] = cov.f[k]; return r; }
module.exports = { instrument, instrumentAll, run, context, text, statements, functions, vm, assert: require('assert') };
