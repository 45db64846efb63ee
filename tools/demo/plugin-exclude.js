const { n, run } = require('./replay.js'); const assert = require('assert');
const req = { goal: 'script', filename: 'src\\gen/a.js', options: '{"unstableExclude":["src/gen/**"]}' };
const r = run('a;', req); assert.equal(r.failed, null); assert.ok(r.result.equals(n.programBytes()), 'an excluded file must come back unchanged');
const k = run('a;', { ...req, filename: 'src\\lib/a.js' }); assert.equal(k.failed, null); assert.ok(!k.result.equals(n.programBytes()));
