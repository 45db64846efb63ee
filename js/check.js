'use strict';
// node check.js <property> <tier>: generated-input search for one property, sharded over processes.
const path = require('path'), fs = require('fs'), crypto = require('crypto'), cp = require('child_process');
const NM = process.env.VERIF_NODE_MODULES || '/opt/veriftools/node/node_modules';
const fc = require(path.join(NM, 'fast-check'));
const ROOT = path.join(__dirname, '..');
const SHRINK_EVALS = 600, SHRINK_MS = 30000, HANG_MS = 120000;

const hash = s => crypto.createHash('sha1').update(s).digest('hex');
const load = id => require(path.join(__dirname, 'props', id + '.js'));
function shardSeed(id, seed, shard) { return crypto.createHash('sha1').update(`${id}/${seed}/${shard}`).digest().readInt32LE(0); }
/** runs one case; a harness exception is an error, never a violation */
function evalCase(prop, c) { return prop.run(c) || {}; }

// ---------------------------------------------------------------- worker
function worker() {
  const cfg = JSON.parse(process.env.VERIF_SHARD);
  const prop = load(cfg.id);
  const st = { evaluations: 0, discards: {}, tags: {}, keys: new Set(), samples: [], passes: 0 };
  let failing = null, failEvals = 0, failAt = 0, error = null;
  const one = c => {
    if (error) return true; // nothing to shrink
    if (failing && (++failEvals > SHRINK_EVALS || Date.now() - failAt > SHRINK_MS)) return true;
    fs.writeFileSync(cfg.careful, JSON.stringify(c)); // for the master, should this case crash or hang
    let r;
    try { r = evalCase(prop, c); } catch (e) { if (failing) return true; error = { message: String(e && e.stack || e), case: c }; throw e; }
    if (r.fail) { if (!failing) failAt = Date.now(); failing = { case: c, message: r.fail, show: r.show }; return false; }
    if (failing) return true;
    st.evaluations += r.n || 1;
    if (r.discard) { const k = r.discard.slice(0, 90); st.discards[k] = (st.discards[k] || 0) + 1; return true; }
    for (const t of r.tags || []) st.tags[t] = (st.tags[t] || 0) + 1;
    if (r.nontrivial) {
      const k = hash(r.key !== undefined ? r.key : JSON.stringify(c)).slice(0, 20);
      if (!st.keys.has(k)) { st.keys.add(k); if (st.samples.length < 1 && r.show && st.keys.size > 3) st.samples.push(typeof r.show === 'string' ? r.show.slice(0, 1500) : r.show); }
    }
    return true;
  };
  const arb = prop.gen(fc, cfg);
  // a property may add an enumerated part (small exhaustive spaces): shard by index
  if (prop.enumerate) { let i = 0; for (const c of prop.enumerate(cfg.tier)) { if (i++ % cfg.shards !== cfg.shard) continue; if (!one(c)) break; } }
  if (!failing) {
    const params = { seed: cfg.seed, numRuns: cfg.runs, verbose: 0, interruptAfterTimeLimit: cfg.timeMs, markInterruptAsFailure: false, maxSkipsPerRun: 0 };
    try { fc.check(fc.property(arb, one), params); } catch (e) { if (!error) error = { message: String(e && e.stack || e) }; }
  }
  process.send({ evaluations: st.evaluations, discards: st.discards, tags: st.tags, keys: [...st.keys], samples: st.samples, failing, error }, () => process.exit(0));
}

// ---------------------------------------------------------------- master
function runShard(cfg, onDone) {
  const child = cp.fork(__filename, ['--worker'], { execArgv: ['--stack-size=3000', '--max-old-space-size=2500', '--no-warnings', '--experimental-vm-modules'], env: { ...process.env, VERIF_SHARD: JSON.stringify(cfg) }, stdio: ['ignore', 'pipe', 'pipe', 'ipc'], serialization: 'advanced' });
  let msg = null, errText = '';
  child.stdout.on('data', () => {}); child.stderr.on('data', d => { errText = (errText + d).slice(-4000); });
  child.on('message', m => { msg = m; });
  child.on('exit', (code, signal) => onDone(msg, { code, signal, errText }));
  return child;
}
async function main() {
  const [id, tier] = process.argv.slice(2);
  const prop = load(id);
  const t0 = Date.now();
  const seed = parseInt(process.env.VERIF_SEED || '1', 10) || 0;
  const W = parseInt(process.env.VERIF_WORKERS || '8', 10);
  const total = parseInt(process.env.VERIF_CASES || '0', 10) || prop[tier].cases;
  const timeMs = (tier === 'quick' ? 420 : 3000) * 1000;
  fs.mkdirSync(path.join(ROOT, 'work', 'replays'), { recursive: true });
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  if (prop.prepare) prop.prepare();
  // listed findings are replayed exactly, and are outside the generated domain
  const known = JSON.parse(fs.readFileSync(path.join(ROOT, 'known_findings.json'), 'utf8')).findings.filter(f => f.property === id);
  for (const k of known) {
    let r = false; try { r = require(path.join(ROOT, 'known', k.replay))(k); } catch (e) { console.log('note: listed finding could not be replayed: ' + e.message); }
    if (r) console.log(`KNOWN-FINDING: property=${id} ${k.what}`); else console.log(`note: listed finding no longer fails: ${k.what}`);
  }
  let stop = false; const children = new Set();
  const shards = Math.min(W, total);
  const agg = { evaluations: 0, discards: {}, tags: {}, keys: new Set(), samples: [], failing: null, error: null };
  const add = m => {
    agg.evaluations += m.evaluations;
    for (const [k, v] of Object.entries(m.discards)) agg.discards[k] = (agg.discards[k] || 0) + v;
    for (const [k, v] of Object.entries(m.tags)) agg.tags[k] = (agg.tags[k] || 0) + v;
    for (const k of m.keys) agg.keys.add(k);
    if (agg.samples.length < 4) agg.samples.push(...m.samples);
    if (m.failing && (!agg.failing || JSON.stringify(m.failing.case).length < JSON.stringify(agg.failing.case).length)) agg.failing = m.failing;
    if (m.error && !agg.error) agg.error = m.error;
  };
  await Promise.all(Array.from({ length: shards }, (_, shard) => new Promise(resolve => {
    const careful = path.join(ROOT, 'work', `case-${id}-${process.pid}-${shard}.json`);
    const cfg = { id, tier, shard, shards, seed: shardSeed(id, seed, shard), runs: Math.ceil(total / shards), timeMs, careful };
    const died = message => {
      let c = null; try { c = JSON.parse(fs.readFileSync(careful, 'utf8')); } catch (e) { /* nothing was running */ }
      if (c === null) { if (!agg.error) agg.error = { message }; return; }
      add({ evaluations: 0, discards: {}, tags: {}, keys: [], samples: [], failing: { case: c, message } });
      stop = true; for (const o of children) o.kill('SIGTERM');
    };
    let hung = false;
    const ch = runShard(cfg, (m, how) => {
      children.delete(ch); clearInterval(watch);
      if (m) { add(m); if (m.failing) { stop = true; for (const o of children) o.kill('SIGTERM'); } } else if (hung) died(`the code under test did not finish within ${HANG_MS / 1000} s`);
      else if (stop) { /* stopped by another shard's failure */ } else if (!/heap out of memory/.test(how.errText) && ['SIGSEGV', 'SIGABRT', 'SIGILL', 'SIGBUS', 'SIGTRAP'].includes(how.signal)) died('the process running the code under test died with ' + how.signal + ' ' + how.errText.slice(-500));
      else if (!agg.error) agg.error = { message: `worker ended with ${how.code}/${how.signal}: ${how.errText}` };
      fs.rmSync(careful, { force: true });
      resolve();
    });
    children.add(ch);
    const watch = setInterval(() => { try { if (Date.now() - fs.statSync(careful).mtimeMs > HANG_MS) { hung = true; ch.kill('SIGKILL'); } } catch (e) { /* not started */ } }, 3000);
  })));
  let violation = null;
  if (agg.failing) {
    const file = path.join(ROOT, 'work', 'replays', `${id}-${hash(JSON.stringify(agg.failing.case)).slice(0, 12)}.json`);
    fs.writeFileSync(file, JSON.stringify({ property: id, case: agg.failing.case, message: agg.failing.message, show: agg.failing.show }, null, 1));
    violation = file;
  }
  const ev = {
    property: id, tier, seed, level: 'exploration',
    coverage: { evaluations: agg.evaluations, distinct_nontrivial: agg.keys.size, rule: prop.rule, samples: agg.samples.slice(0, 4), discarded: agg.discards, classes: Object.fromEntries(Object.entries(agg.tags).sort((a, b) => b[1] - a[1])) },
    assumptions: prop.assumptions || [], wall_s: (Date.now() - t0) / 1000, violations: violation ? 1 : 0,
  };
  fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(ev, null, 1));
  if (violation) {
    console.log(agg.failing.message.slice(0, 3000));
    if (agg.failing.show) console.log(typeof agg.failing.show === 'string' ? agg.failing.show.slice(0, 3000) : JSON.stringify(agg.failing.show).slice(0, 3000));
    console.log(`VIOLATION property=${id} replay=${violation}`);
    process.exit(1);
  }
  if (agg.error) { console.error('check error: ' + agg.error.message + '\n' + JSON.stringify(agg.error.case || null).slice(0, 3000)); process.exit(2); }
  const disc = Object.values(agg.discards).reduce((a, b) => a + b, 0);
  console.log(`${id}: ${agg.evaluations} cases, ${agg.keys.size} distinct non-trivial, ${disc} discarded, ${(ev.wall_s).toFixed(1)} s`);
  const twin = agg.discards['the probed program behaves differently'] || 0;
  if (twin > 20 && twin > agg.evaluations / 200) { console.error(`check error: ${twin} probed programs behave differently`); process.exit(2); }
  if (agg.keys.size < (prop.minNontrivial || 2)) { console.error('check error: too few non-trivial cases'); process.exit(2); }
  process.exit(0);
}
if (process.argv[2] === '--worker') worker(); else main().catch(e => { console.error(e); process.exit(2); });
