const { n, run } = require('./replay.js'); const assert = require('assert');
const r = run('a;', { goal: 'script', filename: 'C:\\src\\a.js', options: '{}' });
assert.equal(r.failed, null);
assert.ok(r.result.includes(Buffer.from('C:\\src\\a.js')), 'the coverage must register under the filename it was given');
