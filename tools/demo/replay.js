// The native answers recorded in session.json, by call.
const fs = require('fs'), path = require('path');
const s = JSON.parse(fs.readFileSync(path.join(__dirname, 'session.json')));
const get = (f, args) => { const k = f + JSON.stringify(args); if (!(k in s)) throw new Error('not recorded: ' + k); const v = s[k]; return v && typeof v === 'object' && 'b64' in v ? Buffer.from(v.b64, 'base64') : v; };
const n = new Proxy({}, { get: (_, f) => (...args) => f === 'close' || f === 'commentBuffer' ? undefined : get(f, args) });
module.exports = { n, run: require('./host.js')(n, process.argv[2]) };
