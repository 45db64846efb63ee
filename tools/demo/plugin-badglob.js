const { n, run } = require('./replay.js'); const assert = require('assert');
const r = run('a;', { goal: 'script', filename: 'src/a.js', options: '{"unstableExclude":["src/**","a{b"]}' });
assert.equal(r.failed, null); assert.ok(!r.result.equals(n.programBytes()), 'a list with a glob which cannot be parsed must be ignored');
