'use strict';
// Programs beyond the IR: TypeScript, JSX and rarer syntax, as templates whose holes
// (§E expression, §S statements, §N name, §T text) are filled from the choice sequence; plus token mutants.
const { Choices, Gen } = require('./gen');
const { Printer } = require('./print');

const TS = [
  'enum §N { A = 1, B = A << 1, C = "x".length, D = §Q }', 'const enum §N { A, B = 2 }', 'declare enum §N { A }',
  'namespace §N { export const a = §E; export function f() { §S } }', 'namespace §N.Inner { §S }', 'declare namespace §N { let x: number }', 'module §N { export enum E { A } }',
  'interface §N<T = any> { a: string; b?(x: T): void; readonly [k: string]: any; new (): §N; (): void }', 'type §N<T> = T extends (infer U)[] ? { [K in keyof U]?: U[K] } : `a${string}`;',
  'abstract class §N { abstract m(): void; protected abstract x: number; constructor(private readonly a: number = §E, public b?: string) { §S } }',
  'class §N extends (§E as any) { declare x: number; override m(): void { §S } readonly y?: string = §E; static #p: number = 1; [k: string]: any }',
  'class §N<T> implements Iterable<T> { *[Symbol.iterator](): Iterator<T> { yield §E } get v(): T { return §E } set v(x: T) { §S } constructor(); constructor(x?: any) {} }',
  'function §N(this: any, x?: number, ...r: any[]): asserts x is number { §S }', 'function §N(x: string): string; function §N(x: any) { return §E }', 'declare function §N(): void;',
  'export default abstract class { m(x = §E): void { §S } }', 'export type { X } from "y"; export * as ns from "z"; import type Y from "q"; import { type Z, w } from "w"; §N2(w);',
  'let §N = §E as unknown as string, §M = <any>§P; (§N as any).x = §P!;', 'let §N = §P satisfies object;', 'const §N = <T,>(x: T): T => { §S; return x };', 'const §N = async <T>(x: T, y = §E) => §P!;',
  'for (const §N of <any[]>§P) { §S }', 'let §N!: number; §N = §E;', 'function §N<const T extends readonly any[]>(x: T, { a, b = §E }: any = §E) { return (x as any)?.a!.b![§E] }',
  'export = §P;', 'import §N = require("x"); §N();', 'export import §N = A.B;', 'declare global { interface Window { a: 1 } }', 'declare module "x" { export const a: number }', 'class §N { accessor: any; static { §S } constructor(readonly x: any, y = §E) { super.x; } }',
  'export const §N = (x: any): x is string => x && §E;', 'let §N: (a: number) => void = function (a) { §S };', 'try { §S } catch (e: unknown) { §S }', 'abstract class §N { constructor(protected x = §E && §E) { if (§E) §N2 } }', 'let §N = a < b, c > (d);',
  'export class §N { private async *gen(): AsyncGenerator<number> { for await (const x of §P) yield x } }', 'function §N(a: 1 | 2 = §E ? 1 : 2): void {}', 'let §N = { m<T>(this: T, x = §E): T { §S; return this } };', 'if (§E as boolean) §N2; else (§E)!;',
];
const JSX = [
  'const §N = <div a="1" b={§E} {...§P} c>text {§E} &amp; {/* istanbul ignore next */}{}</div>;', '<></>;', '<a.b.c x-y={§E} ns:z="q">{...§P}</a.b.c>;', 'function §N() { return <p key={§E}>{§E ? <a/> : <b>{§E && <c/>}</b>}</p> }',
  'const §N = (p) => <li {...p} onClick={() => { §S }}>{p.x || <i/>}</li>;', '<Foo render={(x = §E) => <b>{x}</b>} a=<i/> />;', 'export default () => <main>{[1,2].map(x => <q k={x}>{x}</q>)}</main>;', 'class §N { render() { return this.x ? <A/> : null } }', 'const §N = <div>{"</script>"} * / */ // not a comment</div>;',
];
const ES = [
  'import §N, { a as §M } from "x"; import * as ns from "y"; import "z"; §N2(§M);', 'export { §M2 as default }; let §M2 = §E;', 'export * from "x"; export * as q from "y"; export {};', 'export default class { m() { §S } static x = §E }', 'export default function* () { §S }', 'export default async (x = §E) => { §S };', 'export default §E;',
  'import.meta.url; import("x").then(() => §E); import("y", { with: { type: "json" } });', 'import §N from "x" with { type: "json" };', 'function §N() { return new.target && §E }', 'class §N { #x = 1; has(o) { return #x in o && §E } static async *#g() { §S } static { this.#g } }',
  'const §N = 1_000n ** 2n, §M = 0x1F, §K = /[/]\\/(?<n>a)\\k<n>/giu;', 'lbl: { if (§E) break lbl; §S }', 'for (;;) { if (§E) continue; break }', 'for (var i = 0, j = §E; i < 1; i++, j--) ;', 'do §E; while (§E)', 'while (§E) ;', 'for (const §N in §P) if (§E) ; else §E;', 'if (§E) ; else ;', 'if (§E) if (§E) §E; else §E;', 'switch (§E) { }', 'switch (§E) { default: case §E: { §S } }',
  'try { §S } finally { §S }', 'try { } catch { §S } finally { }', 'throw §E;', ';;;', '{}', '({ get a() { return §E }, set a(v) { §S }, async *b() { §S }, [§E]: §E, "c d": §E, 1: §E, __proto__: null, ...§P });', 'var { a: { b: §N = §E } = §E, ...§M } = §P, [x = §E, , ...[y]] = §P;', '[§N3[0], §N3.a = §E] = §P;', '({ a: §N3.b = §E, c = §E } = §P); var c;',
  'const §N = a ?? b, §M = (a || b) ?? c, §K = a?.b?.[§E]?.(§E);', '§N3 ||= §E; §N3.x &&= §E; §N3[§E] ??= () => §E;', 'const §N = `a${§E}b${`${§E}`}`; String.raw`\\u${§E}`;', 'async function §N() { for await (const x of §P) await x; await using_(§E); return await §E }', 'var §N = async x => await x, §M = async (...a) => { §S };', 'var f = function §N() { §N(); }; (function () { §S })(); !function () { §S }();', 'new (class { constructor(x = §E) { §S } })(§E);', 'delete §N3.x, void 0, typeof §N3, -§P, !§P, +§P, ~§P;', 'debugger;', 'a = b, c = d ? e : f ? g : h && i || j;', 'var §N = () => ({}), §M = () => [], §K = () => { };', 'yield_: for (const x of []) { continue yield_ }',
  'class §N extends null { static name = §E; static "constructor"() {} get "a b"() { return 1 } static async = 1; get; set; static; async; "x" = §E; 1 = 2; [§E] = § }'.replace('§ }', '§E }'), 'class §N { static { var x = §E; } static async *[§E](y = §E) { §S } constructor() { §S } }', 'label1: label2: for (;;) { break label1 }', 'const [§N] = [function () { §S }], { §M = () => §E } = §P;', 'let §N = (§E, §E), §M = ((§E));', 'if (§E) { /* istanbul ignore next */ §S } /* istanbul ignore else */ else { §S }', '/* istanbul ignore if */ if (§E) §E;', 'export const §N = () => §E, §M = function () { §S };', 'export var §N = §E; export let §M;', 'const §N = class { x = () => §E; y = function () { §S } };', 'function §N(a, b = a && §E, { c = §E, d: [e = §E] = [] } = {}, ...f) { §S }', 'var §N = async function* () { yield* §P; yield; return }',
];
const PROPOSALS = [
  '@§D class §N { @§D m(x = §E) { §S } @§D static f = §E; @§D get g() { return §E } @§D set g(v) { §S } @§D [§E] = §E; }', 'export @§D class §N { @§D #p = §E; @§D static #m() { §S } }', '@§D export class §N { @§D @§D async *m() { yield §E } }', 'export default @§D class { @§D x = () => §E }', 'const §N = @§D class { @§D m() { §S } };', 'const §N = @§D class §M extends (§E, Object) { constructor() { super(); §S } @§D x = super.y };',
  'class §N { @§D accessor a = §E; static accessor b = () => §E; accessor #c = §E && §E; accessor d; }', 'class §N { @§D static { §S } }'.replace('@§D static', 'static'), '@(§D) class §N { @(x => §E) m() {} @(function () { §S }) n() {} }', '@§D @(class { m() { §S } }) class §N {}',
  '{ using §N = §P; §S }', 'for (using §N of §P) { §S }', 'async function §N() { await using §M = §P, §K = §E; §S; return §M }', 'function §N() { using §M = §E; return §E }', 'async function §N() { for await (await using x of §P) if (§E) §S2 }', 'switch (1) { case 1: using §N = null; §S }', 'using §N = null;', 'class §N { static { using x = §E; §S } m() { using y = §E; if (§E) return y; §S } }', 'export { §M2 }; using §M2 = null;', 'const §N = async () => { await using x = §E; §S };',
  'import §N from "x" with { type: "json" }; §N2(§N);', 'export * from "y" with { a: "b" };',
];
const TSPROPOSALS = ['class §N { constructor(@§D private x = §E, @§D y?: any) { §S } @§D m(@§D a: any, @(x => §E) b = §E): void { §S } @§D declare z: any; @§D abstract_?: any }', '@§D abstract class §N { @§D abstract m(): void; @§D n(): void { §S } @§D private readonly x: any = §E }', 'export default @§D abstract class §N<T> implements I { @§D static readonly x?: T = §E }', 'class §N { @§D f(): void; @§D f(a?: any): any { return §E } }'.replace('@§D f(): void; ', 'f(): void; ')];
const SCRIPT = ['with (§P) { §S }', 'with (§P) §E;', 'function §N(a, a) { §S }', 'var yield = 1, let_ = 0; yield + 1;', 'if (1) function §N() { §S }', 'l: function §N() { §S }', 'var §N = 010 + 08;', '<!-- html comment\n§E\n--> more', 'delete x; arguments_ = 1;', 'for (var §N = 0 in {}) ;', '"use strict"; §S', '"\\x61\\u{62}"; "use\\x20strict"; §E;', 'let\nx = 1;', 'var async; async\nfunction §N() {}', 'return_: { §S }', 'var await = 1; await + 1;', '(function () { "use strict"; §S; return this })();', 'function §N() { "a"; \'use strict\'; `c`; §S }'];
const COMMENTS = ['', '/* istanbul ignore next */ ', '// istanbul ignore next\n', '/* istanbul ignore if */ ', '/* istanbul ignore else */', '/* c */ ', '/**\n * @type {x} */', '// é\n', '/* istanbul ignore file? */', '/*! @license */ ', '//# sourceMappingURL=x\n'];

function corpus(arr, opts) {
  const c = new Choices(arr);
  const g = new Gen(c, { goal: opts.goal, budget: 30, bias: {}, ...(opts.gen || {}) });
  g.ctx = { fn: null, async: false, gen: false, strict: opts.goal === 'module', labels: [], loop: 0, sw: 0, inFn: false, top: true, cls: false };
  g.push('fn');
  const print = (k, d) => {
    g.budget = 12;
    const node = k === 'E' ? { k: 'wrap', e: g.expr(d) } : { k: 'wrap', list: Array.from({ length: c.n(3) }, () => g.stmt(2)) };
    let u = 0; const num = q => { if (!q || typeof q !== 'object' || q instanceof Map) return; if (Array.isArray(q)) return q.forEach(num); q.uid = u++; for (const x in q) num(q[x]); };
    num(node);
    const pr = new Printer('source', null, {});
    if (k === 'E') pr.e(node.e, 2); else for (const s of node.list) { pr.listStmt(s); pr.w('\n'); }
    return pr.text();
  };
  const pool = [...ES.map(t => [t, 'es'])];
  if (opts.goal === 'script') pool.push(...SCRIPT.map(t => [t, 'script']), ...SCRIPT.map(t => [t, 'script']));
  if (opts.syntax.includes('ts')) pool.push(...TS.map(t => [t, 'ts']), ...TS.map(t => [t, 'ts']));
  if (opts.syntax.includes('jsx') || opts.syntax === 'tsx') pool.push(...JSX.map(t => [t, 'jsx']), ...JSX.map(t => [t, 'jsx']), ...JSX.map(t => [t, 'jsx']));
  if (opts.proposals) { pool.push(...PROPOSALS.map(t => [t, 'proposal']), ...PROPOSALS.map(t => [t, 'proposal'])); if (opts.syntax.includes('ts')) pool.push(...TSPROPOSALS.map(t => [t, 'tsproposal']), ...TSPROPOSALS.map(t => [t, 'tsproposal'])); }
  const n = 1 + c.n(6); const parts = [], tags = new Set(); let id = 0;
  for (let i = 0; i < n; i++) {
    let [t, kind] = pool[c.n(pool.length)];
    if (opts.goal === 'script' && /^(import |export |@§D export |using )/.test(t)) { t = ES[20]; }
    tags.add(kind);
    const names = {};
    const txt = t.replace(/§(E|S2|S|P|Q|D|N3|N2|N|M2|M|K)/g, (m, h) => {
      switch (h) {
        case 'E': return print('E', 2);
        case 'P': return '(' + print('E', 1) + ')';
        case 'Q': return String(c.n(9));
        case 'S': return print('S');
        case 'D': return c.of(['dec_', 'dec_(' + print('E', 1) + ')', 'dec_.a.b', 'dec_.c(' + print('E', 1) + ', 1)']);
        case 'S2': return ';';
        case 'N2': return 'undefined';
        case 'N3': return 'globalThis';
        default: return names[h] || (names[h] = h.toLowerCase() + '_' + id++);
      }
    });
    parts.push(COMMENTS[c.n(4) === 3 ? c.n(COMMENTS.length) : 0] + txt);
  }
  return { code: parts.join(c.n(5) === 4 ? ' ' : '\n'), tags: [...tags] };
}
/** token-level mutation of a text */
const TOK = /\/\*[\s\S]*?\*\/|\/\/[^\n]*|`(?:\\.|[^`\\])*`|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|[A-Za-z_$][\w$]*|\d+|=>|\.\.\.|\?\?=|\|\|=|&&=|\?\?|\?\.|&&|\|\||[-+*/%&|^=!<>]=+|\+\+|--|\s+|[\s\S]/g;
const INSERT = ['await ', 'async ', 'static ', 'yield ', '?.x', ' = 1', '()', '{}', '[]', '!', 'new ', 'typeof ', ' ?? 1', ' && 2', ' || 3', ' ? 4 : 5', ';', 'return ', 'throw ', '...', '`t`', '/* istanbul ignore next */', '/* istanbul ignore file */', 'function ', 'class ', 'super', 'this', 'arguments', 'let ', 'if (1) ', 'else ', 'case 1: ', 'default: ', 'export ', 'break;', 'x => ', '(a = 1) => ', 'get ', 'set ', '*', '#p', 'in ', 'of ', 'instanceof ', 'l: ', 'do ', 'while (0) ', 'for (;;) ', 'try {} finally ', 'delete ', ', ', '"use strict";', 'import("x")', 'new.target'];
function mutate(code, ops) {
  let t = code.match(TOK) || [];
  for (const [k, i, j] of ops) {
    if (!t.length) break;
    const a = i % t.length, b = j % t.length;
    switch (k % 5) {
      case 0: t.splice(a, 1); break;
      case 1: t.splice(a, 0, INSERT[j % INSERT.length]); break;
      case 2: { const x = t[a]; t[a] = t[b]; t[b] = x; break; }
      case 3: t.splice(a, 0, ...t.slice(b, b + 1 + (i % 4))); break;
      case 4: t[a] = INSERT[j % INSERT.length]; break;
    }
  }
  return t.join('');
}
module.exports = { corpus, mutate, INSERT };
