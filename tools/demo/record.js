// Records what the native session answers for the program of the plugin demonstrations: `a;` into session.json, an empty one into session-empty.json.
// usage: record.js <plugin.wasm> [<program> <file>]
const fs = require('fs'), path = require('path'), m = { exports: {} };
process.dlopen(m, path.join(__dirname, '../../plugin-host/target/debug/libverif_plugin_host.so'));
const program = process.argv[3] ?? 'a;', out = process.argv[4] || 'session.json';
const log = {}, real = m.exports;
const n = new Proxy({}, { get: (_, f) => (...args) => { const v = real[f](...args); if (f !== 'close' && f !== 'commentBuffer') log[f + JSON.stringify(args)] = v instanceof Uint8Array ? { b64: Buffer.from(v).toString('base64') } : v; return v; } });
const run = require('./host.js')(n, process.argv[2]);
for (const [filename, options] of [['src\\gen/a.js', '{"unstableExclude":["src/gen/**"]}'], ['src\\lib/a.js', '{"unstableExclude":["src/gen/**"]}'], ['C:\\src\\a.js', '{}'], ['src/a.js', '{"unstableExclude":["src/**","a{b"]}'], ['src/a.js', '{}']]) {
  const r = run(program, { goal: 'script', filename, options }); console.log(r.failed, r.result && r.result.length);
  real.close();
}
for (let p = 0; p < 6; p++) for (const d of [true, false]) { real.open(program, JSON.stringify({ goal: 'script', before: [] })); n.hasComments(d, p); n.charPos(p, d); for (const k of ['getLeading','getTrailing','takeLeading','takeTrailing']) n.readComments(k, p); real.close(); }
for (const f of ['src/gen/a.js', 'src/lib/a.js', 'C:/src/a.js', 'src/gen/**', 'src/**', 'a{b', 'src/a.js']) n.stringBytes(f);
fs.writeFileSync(path.join(__dirname, out), JSON.stringify(log, null, 1) + '\n');
