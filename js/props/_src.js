'use strict';
// Sources of every kind: IR programs, TypeScript/JSX/rare-syntax templates, token mutants, deep nesting.
const C = require('../case');
const { corpus, mutate } = require('../corpus');
const { tagsOf, MODES } = require('./_prog');

const DEEP = [
  n => '('.repeat(n) + '1' + ')'.repeat(n) + ';', n => '['.repeat(n) + ']'.repeat(n) + ';', n => 'f('.repeat(n) + ')'.repeat(n) + ';', n => 'a' + ' && a'.repeat(n) + ';', n => 'x = ' + '(a || '.repeat(n) + 'b' + ')'.repeat(n) + ';',
  n => 'x = ' + 'a ? b : '.repeat(n) + 'c;', n => 'x = ' + 'a ? '.repeat(n) + 'b' + ' : c'.repeat(n) + ';', n => 'if (a) b; else '.repeat(n) + 'c;', n => 'if (a) {'.repeat(n) + '}'.repeat(n), n => '{'.repeat(n) + ';a;' + '}'.repeat(n),
  n => 'x = ' + 'function () { return '.repeat(n) + '1' + ' }'.repeat(n) + ';', n => 'x = ' + '() => '.repeat(n) + '1;', n => 'x = ' + '(a = '.repeat(n) + '1' + ') => 1'.repeat(n) + ';', n => 'x = ' + '{ m() { return '.repeat(n) + '1' + ' } }'.repeat(n) + ';', n => 'x = ' + 'class { m() { return '.repeat(n) + '1' + ' } }'.repeat(n) + ';',
  n => 'x = a' + '.b'.repeat(n) + ';', n => 'x = 1' + ' + a'.repeat(n) + ';', n => 'for (;;) '.repeat(n) + 'break;', n => 'while (a) '.repeat(n) + 'b;', n => 'try {'.repeat(n) + 'a' + '} catch (e) { b }'.repeat(n), n => 'switch (a) { case b: '.repeat(n) + 'c;' + '}'.repeat(n), n => 'x = ' + '`${'.repeat(n) + 'a' + '}`'.repeat(n) + ';', n => Array.from({ length: n }, (_, i) => 'l' + i + ':').join('') + ' for (;;) break l0;', n => 'x = (a ?? '.repeat(n) + 'b' + ')'.repeat(n) + ';',
  n => 'var ' + '{ p: '.repeat(n) + 'x' + ' }'.repeat(n) + ' = a;', n => 'var ' + '['.repeat(n) + 'x' + ' = 1] = []'.repeat(n) + ';', n => 'x = ' + '!'.repeat(n) + 'a;', n => 'x = y' + ' = z'.repeat(n) + ';', n => 'a' + '?.b'.repeat(n) + ';', n => 'a' + '()'.repeat(n) + ';', n => 'do '.repeat(n) + 'a;' + ' while (b);'.repeat(n), n => 'x = ' + 'await_ => { '.repeat(n) + '}'.repeat(n) + ';', n => 'x = ' + '(a, '.repeat(n) + 'b' + ')'.repeat(n) + ';', n => 'x = a' + ' && (b || c)'.repeat(n) + ';', n => 'x = (a ? b : c)' + ' || (d && e)'.repeat(n) + ';',
  n => 'var ' + Array.from({ length: n }, (_, i) => 'v' + i + ' = a && ' + i).join(', ') + ';', n => 'f(' + 'function () { a }, '.repeat(n) + '1);', n => 'a;\n'.repeat(n),
];

/** arbitrary over sources */
function sourceArb(fc, o = {}) {
  const nat = fc.noBias(fc.nat(0xffffff));
  const seq = (min, max) => fc.noBias(fc.array(nat, { minLength: min, maxLength: max, size: 'max' }));
  const goal = fc.noBias(fc.constantFrom('module', 'module', 'script'));
  // o.env: also TypeScript before its types are stripped, decorators, `using`; run() then has to pass s.req on
  const nat0 = fc.noBias(fc.nat(0xffffff));
  const env = o.env ? { env: fc.noBias(fc.constantFrom('', '', '', 'first', 'proposals', 'proposalsFirst')) } : {};
  const mode = o.env ? { mode: fc.noBias(fc.constantFrom(...MODES)), ann: fc.noBias(fc.array(nat0, { minLength: 1, maxLength: 120, size: 'max' })) } : {};
  const kinds = [
    { weight: o.corpus || 6, arbitrary: fc.record({ kind: fc.constant('corpus'), arr: seq(16, 260), goal, syntax: fc.noBias(fc.constantFrom('es', 'ts', 'jsx', 'tsx', 'ts')), ...env, mut: fc.noBias(fc.oneof(fc.constant([]), fc.constant([]), fc.array(fc.tuple(nat, nat, nat), { minLength: 1, maxLength: 2 }))) }) },
    { weight: o.ir || 4, arbitrary: fc.record({ kind: fc.constant('ir'), prog: seq(20, 400), layout: fc.noBias(fc.oneof(fc.constant([]), seq(1, 200))), goal, hints: fc.boolean(), scale: nat, ...mode, mut: fc.noBias(fc.oneof(fc.constant([]), fc.array(fc.tuple(nat, nat, nat), { minLength: 1, maxLength: 1 }))) }) },
  ];
  if (o.deep !== 0) kinds.push({ weight: o.deep || 1, arbitrary: fc.record({ kind: fc.constant('deep'), shape: fc.noBias(fc.nat(DEEP.length - 1)), depth: fc.noBias(fc.integer({ min: 1, max: o.maxDepth || 120 })), goal }) });
  if (o.odd !== 0) kinds.push({ weight: 1, arbitrary: fc.record({ kind: fc.constant('text'), text: fc.noBias(fc.constantFrom('', ' ', '\n', '// c', '/* c */', '\ufeff', '#!x', '#!x\n', ';', ';;', '"use strict"', "'a';'b'", '/* istanbul ignore file */', '/* istanbul ignore next */', '{}', 'a', '\u2028', '"use strict";\n// end', 'export {}', 'import "x"', 'import "x"; "use strict"', '/* a *//* b */\n', '"use strict" + 1', '("use strict")', '"a"\n;"b"\n[1]')), goal }) });
  return fc.oneof(...kinds);
}
const opsOf = m => m.map(([a, b, c]) => [a % 5, b, c]);
function render(q, o = {}) {
  switch (q.kind) {
    case 'corpus': { const r = corpus(q.arr, { goal: q.goal, syntax: q.syntax, gen: o.gen, proposals: /^prop/.test(q.env || '') }); return { code: q.mut.length && !o.noMut ? mutate(r.code, opsOf(q.mut)) : r.code, syntax: q.syntax, goal: q.goal, req: q.env ? { proposals: true, first: /irst$/.test(q.env), decorators: /ts/.test(q.syntax) ? 'legacy' : '2022', lowerUsing: true } : {}, tags: ['corpus', ...(q.env ? [q.env] : []), q.syntax, ...r.tags.map(t => 'template:' + t), ...(q.mut.length ? ['mutant'] : [])] }; }
    case 'ir': { const b = C.build({ prog: q.prog, layout: q.layout, goal: q.goal, mode: q.mode, ann: q.ann, scale: q.scale }, { hints: q.hints, wildHints: q.hints && q.prog[0] % 3 === 0, anonDefault: true, fieldFn: true, exportFnLet: true, ...(o.gen || {}) }); return { code: q.mut.length && !o.noMut ? mutate(b.src.code, opsOf(q.mut)) : b.src.code, syntax: b.treq.syntax || 'es', goal: b.goal, deep: !!b.treq.deep, req: b.req, tags: ['ir', ...[...b.p.feat.keys()].filter(t => /^scale/.test(t)), ...(q.mode ? ['mode:' + q.mode] : []), ...(q.mut.length ? ['mutant'] : [])] }; }
    case 'deep': return { code: DEEP[q.shape](q.depth), syntax: 'es', goal: q.goal, tags: ['deep', 'deep' + q.shape], deep: q.depth > 20 };
    case 'text': return { code: q.text, syntax: 'es', goal: q.goal, tags: ['oddText'] };
  }
  throw new Error(q.kind);
}
module.exports = { sourceArb, render, DEEP };
