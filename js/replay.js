'use strict';
// node replay.js <file>: runs one saved case again.
const fs = require('fs'), path = require('path');
const r = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const prop = require(path.join(__dirname, 'props', r.property + '.js'));
if (prop.prepare) prop.prepare();
const out = prop.run(r.case);
console.log(out.fail ? 'FAILS: ' + out.fail : 'passes' + (out.discard ? ' (discarded: ' + out.discard + ')' : ''));
if (out.show) console.log(out.show);
process.exit(out.fail ? 1 : 0);
