'use strict';
// Runs the repository's own fixtures (spec/fixtures/*.yaml) natively: a regression check for fix commits.
const fs = require('fs'), path = require('path');
const NM = '/opt/veriftools/node/node_modules/';
const yaml = require(NM + 'js-yaml');
const { transform } = require('./addon');
const dir = process.argv[2] || '/repo/spec/fixtures';
const AsyncFunction = Object.getPrototypeOf(async () => {}).constructor;
(async () => {
  let bad = 0, n = 0;
  for (const f of fs.readdirSync(dir).filter(f => f.endsWith('.yaml'))) {
    for (const doc of yaml.loadAll(fs.readFileSync(path.join(dir, f), 'utf8'))) {
      if (!doc || !doc.code) continue;
      const io = doc.instrumentOpts || {}, opts = doc.opts || {};
      const opt = { ...io, coverageVariable: io.coverageVariable || '__testing_coverage__' };
      if (doc.inputSourceMap) opt.inputSourceMap = doc.inputSourceMap;
      const file = path.resolve(dir, f), cv = opt.coverageVariable;
      const r = transform(doc.code, { filename: file, options: opt, cjs: true, goal: io.esModules === false ? 'script' : 'module', syntax: 'jsx' });
      if (!r.ok) { bad++; console.log('FAIL', f, doc.name, r.message); continue; }
      const w = '{ var exports={};\n var output;\n' + r.code + '\nreturn output;\n}';
      for (const t of doc.tests || []) {
        if (opts.generateOnly) { n++; try { new Function('args', w.replace(/await/g,'')) } catch (e) { if (!/import|export/.test(e.message)) { bad++; console.log('SYNTAX', f, doc.name, e.message); } } continue; }
        if (opts.noCoverage) { n++; if (/cov_\d+/.test(r.code)) { bad++; console.log('instrumented', f, doc.name); } continue; }
        n++;
        delete globalThis[cv];
        let out;
        try { const g = new (opts.isAsync ? AsyncFunction : Function)('args', w); out = await g(t.args); } catch (e) { bad++; console.log('THROW', f, doc.name, t.name, e.message); continue; }
        const cov = globalThis[cv] && globalThis[cv][file];
        const chk = (k, got, exp) => { if (JSON.stringify(got) !== JSON.stringify(exp)) { bad++; console.log('DIFF', f, '|', doc.name, '|', t.name, '|', k, JSON.stringify(got), 'expected', JSON.stringify(exp)); } };
        if (!cov) { bad++; console.log('NO COVERAGE', f, doc.name); continue; }
        chk('out', out, t.out);
        chk('s', cov.s, t.statements || {}); chk('f', cov.f, t.functions || {}); chk('b', cov.b, t.branches || {});
        chk('bT', cov.bT || {}, t.branchesTrue || {});
        const lines = {};
        for (const k in cov.s) { const l = cov.statementMap[k].start.line; lines[l] = Math.max(lines[l] || 0, cov.s[k]); }
        chk('lines', lines, t.lines || {});
      }
    }
  }
  console.log(n, 'fixture tests,', bad, 'differences'); process.exit(bad ? 1 : 0);
})();
