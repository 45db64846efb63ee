const { n, run } = require('./replay.js'); const assert = require('assert');
const r = run('', { goal: 'script', filename: 'src/a.js', options: '{}' });
assert.equal(r.failed, null); assert.ok(r.result.includes(Buffer.from('src/a.js')), 'an empty file must register in the coverage');
