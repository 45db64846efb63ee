'use strict';
// Prints an IR program. Two modes:
//   source: records, for every construct, the exact source range, and collects the entries
//           (statements, functions, branches) an Istanbul-compatible report must contain;
//   twin:   the same program in which every construct reports its own execution: `__p(id)`.
const { Choices, isHoisted, isFnLike } = require('./gen');

const PREC = { seq: 0, assign: 2, yield: 2, arrow: 2, cond: 3, nullish: 4, or: 4, and: 5, bor: 6, eq: 9, rel: 10, add: 12, mul: 13, exp: 14, unary: 15, update: 16, call: 18, member: 19, prim: 20 };
const BINP = { '+': 'add', '-': 'add', '*': 'mul', '===': 'eq', '!==': 'eq', '<': 'rel', in: 'rel', instanceof: 'rel', '|': 'bor', '**': 'exp', ',': 'seq' };

function prec(e) {
  switch (e.k) {
    case 'seq': return PREC.seq;
    case 'assign': return PREC.assign;
    case 'yield': return PREC.yield;
    case 'fn': return e.kind === 'arrow' ? PREC.arrow : PREC.prim;
    case 'cond': return PREC.cond;
    case 'logical': return e.op === '&&' ? PREC.and : PREC.or;
    case 'bin': return PREC[BINP[e.op]];
    case 'unary': case 'await': return PREC.unary;
    case 'update': return PREC.update;
    case 'call': case 'tagged': case 'optional': return PREC.call;
    case 'member': case 'index': return PREC.member;
    case 'superCall': return PREC.call;
    default: return PREC.prim;
  }
}
const HINT_STYLES = [
  h => `/* istanbul ignore ${h} */`,
  h => `\n// istanbul ignore ${h}\n`, // on a line of its own: the compiler attaches other line comments to the token before them
  h => `/* istanbul ignore ${h}: because */`,
  h => `/*istanbul   ignore ${h}*/`,
  h => `/*\n istanbul ignore ${h} */`,
  h => `/* plain */ /* istanbul ignore ${h} */`,
  h => `/* istanbul ignore ${h} */ /* istanbul ignore nothing */`,
  h => `/*\tistanbul\n ignore  ${h}, for a reason\n*/`,
];
const NOISE = ['/* c */', '/* é 中文 */', '/* istanbul ignore */', '/* not istanbul ignore next */', '/* istanbul ignore nextish */', '/* istanbul  ignored next */', '/*\n * multi\n */', '/* ISTANBUL IGNORE NEXT */', '/** istanbul ignore next */', '/*! istanbul ignore next */', '/*\n * istanbul ignore if\n */', '/* istanbul: ignore else */', '/* c8 ignore next */', '/*istanbulignorenext*/', '/* istanbul\tignore-next */'];

class Printer {
  constructor(mode, layout, opts = {}) {
    this.mode = mode; this.twin = mode === 'twin';
    this.ly = layout; // Choices or null
    this.o = opts;
    this.buf = []; this.line = 1; this.col = 0; this.len = 0;
    this.nl = opts.nl || '\n';
    this.s = []; this.f = []; this.b = [];
    this.ignored = 0; this.opt = 0; this.hinted = [];
    this.level = 0;
    this.ty = !this.twin && opts.ann ? new Choices(opts.ann) : null; // TypeScript annotations, in the source only
    this.uq = 0;
  }
  // ---- raw output ---------------------------------------------------------
  w(str) {
    for (const part of str.split(/(\n)/)) {
      if (part === '\n') { this.buf.push(this.nl); this.line++; this.col = 0; }
      else if (part === '\ufeff' && this.line === 1 && this.col === 0) this.buf.push(part); // a byte order mark is not part of the text
      else if (part) { this.buf.push(part); this.col += part.length; }
    }
  }
  pos() { return { line: this.line, column: this.col }; }
  text() { return this.buf.join(''); }
  sp() { // optional white space
    if (!this.ly) return;
    const r = this.ly.n(24);
    if (r < 14) return;
    if (r < 18) this.w(' '); else if (r < 19) this.w('\t'); else if (r < 22) this.w('\n' + ' '.repeat(this.ly.n(5)));
    else this.w(NOISE[this.ly.n(NOISE.length)]);
  }
  ws() { // mandatory white space
    if (!this.ly) return this.w(' ');
    const r = this.ly.n(16);
    if (r < 10) this.w(' '); else if (r < 12) this.w('  '); else if (r < 13) this.w('\n'); else if (r < 14) this.w('\t'); else this.w(' ' + NOISE[this.ly.n(NOISE.length)] + ' ');
  }
  wsl() { this.w(' '); } // white space where no line terminator may appear
  nlb() { // between statements
    if (!this.ly) return this.w('\n');
    const r = this.ly.n(10);
    if (r < 6) this.w('\n'); else if (r < 7) this.w('\n\n  '); else if (r < 8) this.w(' '); else if (r < 9) this.w('\n' + NOISE[this.ly.n(NOISE.length)] + '\n'); else this.w('\n// line é istanbul ignore next? no\n');
  }
  // ---- types -----------------------------------------------------------------
  an(p = 3) { return !!this.ty && this.ty.n(p) === p - 1; }
  type() { return this.ty.of(['any', 'any[]', '{ a?: any; b(): void }', '(a: any) => void', 'typeof x9', '"a" | 1', 'Map<any, any>', 'A9 extends any ? 1 : 2', '`a${any}`', '[any, ...any[]]']); }
  ann(p = 3) { if (this.an(p)) { this.w(':'); this.sp(); this.w(this.type()); } } // `: T`
  tparams() { if (this.an(5)) this.w(this.ty.of(['<A9>', '<A9, B9 = any>', '<A9 extends object>'])); }
  targs() { if (this.an(5)) this.w(this.ty.of(['<any>', '<any, () => void>'])); }
  typeStmt(n) { // a declaration that leaves nothing behind
    if (!this.an(7) || this.o.tsx) return;
    const u = this.uq++;
    const l = ['type A$ = 1 | (() => void);', 'interface I$ { m(a?: any): void; readonly p?: number; get q(): any; new (): any }', 'declare let d$: any;', 'declare const e$ = 5;', 'declare function f$(a: any): void;', 'declare class C$ { m(): void; static p: any; constructor(a?: any); }', 'type A$<T> = { [K in keyof T]?: T[K] };', 'declare enum E$ { A, B = 2 }', 'abstract class Q$ {}'];
    l.pop();
    if (n === 'top') l.push('declare module "m$" { export const r: number; export function h(): void }', 'declare namespace N$ { const a = 1; function q(): void; }');
    if (n === 'top' && this.esm) l.push(...(this.nsDepth ? [] : ['export declare const e$ = 5;']), /* swc emits the initializer in a namespace */ 'export declare let f$: any;', 'export type { A9 } from "q";', 'import type B$ from "q";', 'export interface J$ {}', 'export type K$ = 1;', 'declare global { var g$: any }', 'export declare function h$(): void;', 'export declare namespace M$ { const a = 1 }');
    this.w(this.ty.of(l).replace(/\$/g, () => '9' + u)); this.nlb();
  }
  overloads(head, ok) { if (ok && this.an(6)) for (let i = 1 + this.ty.n(2); i > 0; i--) { head(); this.w(this.ty.of(ok === 'ctor' ? ['();', '(a?: any, ...r: any[]);'] : ['(): void;', '(a?: any): any;', '<T>(a: T, ...r: any[]): T;'])); this.nlb(); } }
  // ---- entries ------------------------------------------------------------
  // identities are properties of the IR node, so that source and twin agree whatever is printed
  id(node, slot) { if (node.uid === undefined) throw new Error('no uid on ' + node.k); return node.uid * 8 + slot; }
  probe(id) { return `__p(${id})`; }
  addS(o) { if (!this.twin) { o.ign = this.ignored > 0; o.opt = this.opt > 0; o.hintStack = this.hinted.slice(); this.s.push(o); } return o; }
  addF(o) { if (!this.twin) { o.ign = this.ignored > 0; o.opt = this.opt > 0; o.hintStack = this.hinted.slice(); this.f.push(o); } return o; }
  addB(o) { if (!this.twin) { o.ign = this.ignored > 0; o.opt = this.opt > 0; o.hintStack = this.hinted.slice(); this.b.push(o); } return o; }
  hint(n) {
    if (!n.hint || this.twin || this.o.noHints) return;
    // after these tokens the compiler attaches a comment on the same line to the token, not to what follows
    if (!/(^|\n)[ \t]*$|[(),?:&|=>\[+\-*<!][ \t]*$/.test(this.buf.slice(-12).join(''))) this.w('\n');
    this.w(HINT_STYLES[n.hintStyle || 0](n.hint));
    if (!/\n$/.test(HINT_STYLES[n.hintStyle || 0](n.hint))) this.w(' ');
  }
  enterHint(n) { if (n.hint === 'next') { this.ignored++; this.hinted.push(n); } }
  exitHint(n) { if (n.hint === 'next') { this.ignored--; this.hinted.pop(); } }
  // ---- program --------------------------------------------------------------
  program(p) {
    let u = this.o.uidBase || 0; const seen = new Set();
    const number = q => { if (!q || typeof q !== 'object') return; if (Array.isArray(q)) { q.forEach(number); return; } if (q instanceof Map) return; if (seen.has(q)) throw new Error('shared IR node ' + q.k); seen.add(q); q.uid = u++; for (const k in q) number(q[k]); };
    number(p);
    this.esm = p.body.some(it => /^export/.test(it.k)); // type-only imports and exports alone would make a script a module
    if (this.o.prefix && !this.twin) for (const part of this.o.prefix.split(/(\ufeff)/)) this.w(part);
    for (const d of p.dirs) { this.w(d.q + d.v + d.q + ';'); this.nlb(); }
    for (const it of p.body) { this.item(it); this.nlb(); }
    return this;
  }
  item(n) {
    this.typeStmt('top');
    switch (n.k) {
      case 'namespace': return this.namespace(n);
      case 'enum': return this.enumDecl(n);
      case 'export': {
        this.hint(n); this.enterHint(n);
        const isConst = n.d.k === 'var' && n.d.dk === 'const';
        const e = isConst ? { kind: 'exportConst', id: this.id(n.d, 7) } : null;
        if (this.twin) { if (e) this.w(this.probe(e.id) + ';'); for (const q of this.preDecl(n.d)) this.w(this.probe(q) + ';'); }
        const st = this.pos();
        this.decsFirst(n.d.cl);
        this.w('export'); this.ws();
        if (n.d.k === 'var') this.varDecl(n.d, true, true); else if (n.d.k === 'fnDecl') this.fn(n.d.fn); else this.cls(n.d.cl, true, true);
        if (e) this.addS({ ...e, loc: [st, this.pos()] });
        this.exitHint(n);
        return;
      }
      case 'exportDefaultExpr': this.hint(n); this.enterHint(n); this.w('export default'); this.ws(); this.e(this.notDeclStart(n.e), PREC.assign); this.w(';'); this.exitHint(n); return;
      case 'exportDefaultFn': this.hint(n); this.enterHint(n); this.decsFirst(n.e); this.w('export default'); this.ws(); if (n.e.k === 'class') this.cls(n.e, false, true); else this.fn(n.e); this.exitHint(n); return;
      default: this.listStmt(n);
    }
  }
  namespace(n) {
    this.hint(n); this.enterHint(n);
    if (n.exp) { this.w('export'); this.wsl(); }
    this.w(n.kw); this.wsl(); this.w(n.name + n.sub); this.sp(); this.w('{'); this.nlb();
    this.nsDepth = (this.nsDepth || 0) + 1;
    for (const it of n.body) { this.item(it); this.nlb(); }
    this.nsDepth--;
    this.w('}'); this.exitHint(n);
  }
  enumDecl(n) {
    this.hint(n); this.enterHint(n);
    if (n.exp) { this.w('export'); this.wsl(); }
    this.w('enum'); this.wsl(); this.w(n.name); this.sp(); this.w('{'); this.nlb();
    n.members.forEach((m, i) => { if (i) { this.w(','); this.nlb(); } this.key(m.key); if (m.e) { this.sp(); this.w('='); this.sp(); this.e(m.e, PREC.assign); } });
    this.sp(); this.w('}'); this.exitHint(n);
  }
  notDeclStart(e) { let q = e; while (true) { if ((q.parens || 0) > 0) return e; if (q.k === 'fn' && q.kind !== 'arrow' || q.k === 'class' || q.k === 'fn' && q.async) return { ...e, parens: (e.parens || 0) + 1 }; const l = leftmost(q); if (!l) return e; q = l; } }
  // ids of probes that precede a statement in a list, in order
  listStmt(n) {
    if (n.k === 'namespace') return this.namespace(n);
    if (n.k === 'enum') return this.enumDecl(n);
    if (this.ty && this.level) this.typeStmt('list');
    if (n.k === 'fnDecl' && !n.hint) this.overloads(() => { this.w('function '); this.w(n.fn.name); }, true);
    this.hint(n); this.enterHint(n);
    if (this.twin) for (const q of this.pre(n)) this.w(this.probe(q) + ';');
    this.stmt(n);
    this.exitHint(n);
  }
  pre(n) { // allocate the statement's own id; labelled statements hoist the probes of what they label
    const r = [];
    switch (n.k) {
      case 'block': case 'empty': case 'fnDecl': case 'classDecl': return r;
      case 'var': return this.preDecl(n);
      case 'label': n.pid = this.id(n, 0); return [n.pid, ...this.pre(n.body)];
      case 'for': n.pid = this.id(n, 0); return n.init && n.init.k === 'var' ? [n.pid, ...this.preDecl(n.init)] : [n.pid];
      default: n.pid = this.id(n, 0); return [n.pid];
    }
  }
  preDecl(d) { const r = []; if (d.k !== 'var') return r; for (const q of d.ds) if (q.init) { q.pid = this.id(q, 0); if (isHoisted(q.init)) r.push(q.pid); } return r; }
  block(b) { this.w('{'); this.sp(); this.level++; for (const s of b.body) { this.listStmt(s); this.nlb(); } this.level--; this.sp(); this.w('}'); }
  hblock(b) { this.hint(b); this.enterHint(b); this.block(b); this.exitHint(b); }
  // a statement in a non-list position
  sub(n) {
    if (n.k === 'block') { this.hblock(n); return; }
    if (this.twin) { this.w('{'); this.listStmt(n); this.w('}'); return; }
    this.hint(n); this.enterHint(n);
    this.stmt(n);
    this.exitHint(n);
  }
  stmt(n) {
    this.pre(n); // sets the ids
    const st = this.pos();
    const fin = (kind) => { this.addS({ kind, id: n.pid, loc: [st, this.pos()] }); };
    switch (n.k) {
      case 'empty': this.w(';'); return;
      case 'debugger': this.w('debugger;'); fin('debugger'); return;
      case 'late': this.w(n.q + n.v + n.q + ';'); fin('expr'); return;
      case 'expr': { this.e(this.stmtStart(n.e), PREC.seq); this.sp0(); this.w(';'); fin('expr'); return; }
      case 'block': this.block(n); return;
      case 'var': this.varDecl(n, true); return;
      case 'fnDecl': this.fn(n.fn); return;
      case 'classDecl': this.cls(n.cl, true); return;
      case 'return': case 'throw': this.w(n.k); if (n.e) { this.wsl(); this.e(this.noLeadNl(n.e), PREC.seq); } this.sp0(); this.w(';'); fin(n.k); return;
      case 'break': case 'continue': this.w(n.k); if (n.label) { this.wsl(); this.w(n.label); } this.sp0(); this.w(';'); fin(n.k); return;
      case 'label': this.w(n.name); this.sp(); this.w(':'); this.sp();
        this.hint(n.body); this.enterHint(n.body); this.stmt(n.body); this.exitHint(n.body);
        fin('label'); return;
      case 'if': {
        const b = { type: 'if', ids: [this.id(n, 1), this.id(n, 2)] };
        this.w('if'); this.sp(); this.w('('); this.sp(); this.e(n.test, PREC.seq); this.sp(); this.w(')'); this.sp();
        const ignIf = n.hint === 'if' && !this.o.noHints, ignElse = n.hint === 'else' && !this.o.noHints;
        if (this.twin) {
          this.w('{' + this.probe(b.ids[0]) + ';'); this.sub(n.cons); this.w('}else{' + this.probe(b.ids[1]) + ';'); if (n.alt) this.sub(n.alt); this.w('}');
          return;
        }
        if (ignIf) { this.ignored++; this.hinted.push(n); }
        this.sub(n.cons);
        if (ignIf) { this.ignored--; this.hinted.pop(); }
        if (n.alt) {
          this.sp(); this.w('else'); this.ws();
          if (ignElse) { this.ignored++; this.hinted.push(n); }
          this.sub(n.alt);
          if (ignElse) { this.ignored--; this.hinted.pop(); }
        }
        const loc = [st, this.pos()];
        this.addB({ type: 'if', loc, paths: [{ id: b.ids[0], loc, side: 'if', drop: n.hint === 'if' }, { id: b.ids[1], loc, side: 'else', drop: n.hint === 'else' }], node: n });
        fin('if');
        return;
      }
      case 'for': this.w('for'); this.sp(); this.w('('); this.sp();
        if (n.init) { if (n.init.k === 'var') { this.varDecl(n.init, false); } else this.e(n.init.e.k === 'raw' ? n.init.e : { ...n.init.e, parens: Math.max(1, n.init.e.parens || 0) }, PREC.seq); }
        this.w(';'); this.sp(); this.e(n.test, PREC.seq); this.sp(); this.w(';'); this.sp(); if (n.update) this.e(n.update, PREC.seq); this.sp(); this.w(')'); this.sp();
        this.sub(n.body); fin('for'); return;
      case 'while': this.w('while'); this.sp(); this.w('('); this.sp(); this.e(n.test, PREC.seq); this.sp(); this.w(')'); this.sp(); this.sub(n.body); fin('while'); return;
      case 'dowhile': this.w('do'); this.ws(); this.sub(n.body); this.sp(); this.w('while'); this.sp(); this.w('('); this.sp(); this.e(n.test, PREC.seq); this.sp(); this.w(')'); this.w(';'); fin('dowhile'); return;
      case 'forof': case 'forin': case 'forawait': {
        this.w('for'); if (n.k === 'forawait') { this.ws(); this.w('await'); } this.sp(); this.w('('); this.sp();
        if (n.target) this.e(n.target, PREC.call); else { this.w(n.dk); this.ws(); this.pat(n.pat); }
        this.ws(); this.w(n.k === 'forin' ? 'in' : 'of'); this.ws(); this.e(n.right, PREC.assign); this.sp(); this.w(')'); this.sp(); this.sub(n.body); fin(n.k); return;
      }
      case 'switch': {
        this.w('switch'); this.sp(); this.w('('); this.sp(); this.e(n.disc, PREC.seq); this.sp(); this.w(')'); this.sp(); this.w('{'); this.nlb();
        const paths = [];
        for (const c of n.cases) {
          const id = this.id(c, 1);
          this.hint(c); this.enterHint(c);
          const s0 = this.pos();
          if (c.test) { this.w('case'); this.ws(); this.e(c.test, PREC.seq); this.sp(); this.w(':'); } else { this.w('default'); this.sp(); this.w(':'); }
          if (this.twin) this.w(this.probe(id) + ';');
          let end = this.pos();
          for (const q of c.body) { this.sp(); this.listStmt(q); end = this.pos(); }
          paths.push({ id, loc: [s0, end], drop: c.hint === 'next' || this.ignored > 0, hinted: c.hint === 'next' });
          this.exitHint(c);
          this.nlb();
        }
        this.w('}');
        this.addB({ type: 'switch', loc: [st, this.pos()], paths, node: n }); fin('switch'); return;
      }
      case 'try': this.w('try'); this.sp(); this.hblock(n.block);
        if (n.handler) { this.sp(); this.w('catch'); this.sp(); if (n.param) { this.w('('); this.sp(); this.pat(n.param); if (this.an()) this.w(this.ty.of([': any', ': unknown'])); this.sp(); this.w(')'); this.sp(); } this.hblock(n.handler); }
        if (n.fin) { this.sp(); this.w('finally'); this.sp(); this.hblock(n.fin); }
        fin('try'); return;
      case 'with': this.w('with'); this.sp(); this.w('('); this.sp(); this.e(n.obj, PREC.seq); this.sp(); this.w(')'); this.sp(); this.sub(n.body); fin('with'); return;
    }
    throw new Error('print ' + n.k);
  }
  sp0() { if (this.ly && this.ly.n(8) === 7) this.w(' '); }
  stmtStart(e) { // an expression statement must not start with {, function, class, let, async function
    let q = e;
    for (;;) {
      if ((q.parens || 0) > 0) return e;
      if (q.k === 'obj' || q.k === 'class' || (q.k === 'fn' && (q.kind !== 'arrow' || q.async))) return { ...e, parens: (e.parens || 0) + 1 };
      if (q.k === 'str') return { ...e, parens: (e.parens || 0) + 1 }; // never a directive by accident
      if (q.k === 'assign' && q.l.k === 'objPat') return { ...e, parens: (e.parens || 0) + 1 };
      const l = leftmost(q); if (!l) return e; q = l;
    }
  }
  noLeadNl(e) { let q = e; for (;;) { if (q.hint || (q.parens || 0) > 0) return { ...e, parens: (e.parens || 0) + 1 }; const l = leftmost(q); if (!l) return e; q = l; } }
  varDecl(n, semi, exp = false) {
    this.preDecl(n);
    const kw = n.dk; this.w(kw);
    n.ds.forEach((d, i) => {
      if (i) { this.sp(); this.w(','); this.sp(); } else this.ws();
      this.hint(d); this.enterHint(d);
      this.pat(d.pat); if (semi) this.ann();
      if (d.init) {
        this.sp(); this.w('='); this.sp();
        const fn = isHoisted(d.init);
        let st = this.pos();
        if (this.twin && !fn) { this.w('(' + this.probe(d.pid) + ','); this.e(d.init, PREC.assign); this.w(')'); }
        else st = this.e(d.init, PREC.assign)[0][0];
        this.addS({ kind: 'init', id: d.pid, loc: [st, this.pos()], exportDecl: exp, dk: n.dk, fnInit: fn, arrowOnly: isFnLike(d.init) && !containsBlock(d.init) });
      }
      this.exitHint(d);
    });
    if (semi) { this.sp0(); this.w(';'); }
  }
  // ---- patterns --------------------------------------------------------------
  pat(p) {
    this.hint(p); this.enterHint(p); this.pat0(p); this.exitHint(p);
  }
  pat0(p) {
    switch (p.k) {
      case 'id': this.w(p.name); return;
      case 'assignPat': {
        const st = this.pos(); const id = this.id(p, 1);
        const top = this.paramTop === p; this.pat(p.left); if (top) this.ann(); this.sp(); this.w('='); this.sp();
        const s2 = this.pos();
        if (this.twin) { this.w('(' + this.probe(id) + ','); this.e(p.right, PREC.assign); this.w(')'); } else this.e(p.right, PREC.assign);
        const e2 = this.pos();
        this.addB({ type: 'default-arg', loc: [st, e2], paths: [{ id, loc: [s2, e2], drop: p.right.hint === 'next' }], node: p });
        return;
      }
      case 'objPat': {
        this.w('{'); this.sp();
        p.props.forEach((q, i) => {
          if (i) { this.w(','); this.sp(); }
          if (q.short) {
            this.hint(q); this.enterHint(q); const st = this.pos(); this.w(q.short);
            if (q.def) {
              const id = this.id(q, 1); this.sp(); this.w('='); this.sp(); const s2 = this.pos();
              if (this.twin) { this.w('(' + this.probe(id) + ','); this.e(q.def, PREC.assign); this.w(')'); } else this.e(q.def, PREC.assign);
              const e2 = this.pos();
              this.addB({ type: 'default-arg', loc: [st, e2], paths: [{ id, loc: [s2, e2], drop: q.def.hint === 'next' }], node: q, shorthand: true });
            }
            this.exitHint(q);
          } else { this.key(q.key); this.sp(); this.w(':'); this.sp(); this.pat(q.val); }
        });
        if (p.rest) { if (p.props.length) this.w(','); this.w('...' + p.rest); }
        this.sp(); this.w('}'); return;
      }
      case 'arrPat': {
        this.w('['); p.els.forEach((q, i) => { if (i) { this.w(','); this.sp(); } if (q) this.pat(q); });
        if (p.rest) { if (p.els.length) this.w(','); this.w('...'); this.pat(p.rest); } else if (p.els.length && p.els[p.els.length - 1] === null) this.w(',');
        this.w(']'); return;
      }
    }
    throw new Error('pat ' + p.k);
  }
  key(k) {
    const st = this.pos();
    switch (k.k) {
      case 'ident': this.w(k.name); break;
      case 'strkey': this.w(JSON.stringify(k.v)); break;
      case 'numkey': this.w(String(k.v)); break;
      case 'private': this.w('#' + k.name); break;
      case 'computed': this.w('['); this.sp(); this.e(k.e, PREC.assign); this.sp(); this.w(']'); break;
    }
    return [st, this.pos()];
  }
  // ---- functions -------------------------------------------------------------
  fnBody(fn, id) { // prints { ... } and returns its range
    const st = this.pos();
    this.w('{'); this.sp();
    for (const d of fn.dirs) { this.w(d.q + d.v + d.q + ';'); this.nlb(); }
    if (this.twin) this.w(this.probe(id) + ';');
    for (const s of fn.body) { this.listStmt(s); this.nlb(); }
    this.sp(); this.w('}');
    return [st, this.pos()];
  }
  paramList(fn) {
    this.w('('); this.sp();
    fn.params.forEach((p, i) => { if (i) { this.sp(); this.w(','); this.sp(); } this.paramTop = p; if (p.acc) this.w(p.acc); this.pat(p); if (p.k !== 'assignPat') { if (p.k === 'id' && fn.kind !== 'setter' && !fn.params.slice(i).some(q => q.k !== 'id') && this.an(6)) this.w('?'); this.ann(); } });
    if (fn.rest) { if (fn.params.length) this.w(','); this.w('...' + fn.rest); this.ann(); }
    this.sp(); this.w(')');
    if (fn.kind !== 'ctor' && fn.kind !== 'setter') this.ann(4);
  }
  fn(fn) { const out = fn.kind === 'expr' && fn.name && this.listed(fn.name); if (out) this.ignored++; this.fn0(fn); if (out) this.ignored--; }
  listed(name) { return !!this.o.ignoreMethods && this.o.ignoreMethods.includes(name); }
  fn0(fn) { // function declaration / expression / arrow
    const id = this.id(fn, 1); const st = this.pos();
    if (fn.kind === 'arrow') {
      if (fn.async) { this.w('async'); this.wsl(); }
      if (!fn.async && fn.params.length === 1 && !fn.rest && fn.params[0].k === 'id' && this.ly && this.ly.n(3) === 2) this.w(fn.params[0].name); else this.paramList(fn);
      this.wsl(); this.w('=>'); this.sp();
      let body;
      if (fn.exprBody) {
        const sid = this.id(fn, 3);
        const e = this.arrowBody(fn.exprBody);
        const s0 = this.pos();
        if (this.twin) { this.w('(' + this.probe(id) + ',' + this.probe(sid) + ','); this.e(e, PREC.assign); this.w(')'); } else this.e(e, PREC.assign);
        body = [s0, this.pos()];
        this.addS({ kind: 'arrowReturn', id: sid, loc: body });
      } else body = this.fnBody(fn, id);
      this.addF({ id, name: null, decl: [st, this.pos()], loc: body, kind: 'arrow' });
      return;
    }
    if (fn.async) { this.w('async'); this.wsl(); }
    this.w('function'); if (fn.gen) { this.sp(); this.w('*'); }
    let decl = null;
    if (fn.name) { fn.gen ? this.sp() : this.ws(); const a = this.pos(); this.w(fn.name); decl = [a, this.pos()]; }
    this.sp(); this.tparams(); this.paramList(fn); this.sp();
    const body = this.fnBody(fn, id);
    this.addF({ id, name: fn.name || null, decl: decl || [st, this.pos()], loc: body, kind: fn.kind });
  }
  arrowBody(e) { let q = e; for (;;) { if ((q.parens || 0) > 0) return e; if (q.k === 'obj' || (q.k === 'assign' && q.l.k === 'objPat')) return { ...e, parens: (e.parens || 0) + 1 }; const l = leftmost(q); if (!l) return e; q = l; } }
  method(m, cls) { const out = m.k === 'ctor' ? this.listed('constructor') : m.key.k === 'ident' && this.listed(m.key.name); if (out) { this.ignored++; this.outMethods = (this.outMethods || 0) + 1; } this.method0(m, cls); if (out) this.ignored--; }
  method0(m, cls) { // class/object method-like
    const st = this.pos();
    const fn = m.fn;
    if (cls && m.k !== 'ctor' && m.key.k !== 'private') this.access();
    if (m.st) { this.w('static'); this.ws(); }
    if (m.k === 'getter' || m.k === 'setter') { this.w(m.k === 'getter' ? 'get' : 'set'); this.ws(); }
    if (fn.async) { this.w('async'); this.wsl(); }
    if (fn.gen) this.w('*');
    const id0 = m.k === 'ctor' ? null : 0;
    let kr, kname;
    if (m.k === 'ctor') { const a = this.pos(); this.w('constructor'); kr = [a, this.pos()]; kname = 'constructor'; }
    else { kr = this.key(m.key); kname = m.key.k === 'ident' ? m.key.name : m.key.k === 'strkey' ? m.key.v : m.key.k === 'numkey' ? String(m.key.v) : m.key.k === 'private' ? '#' + m.key.name : null; }
    this.sp();
    const id = this.id(fn, 1);
    if (m.k === 'method') this.tparams();
    this.paramList(fn); this.sp();
    const body = this.fnBody(fn, id);
    this.addF({ id, name: kname, decl: kr, loc: body, kind: (cls ? 'class-' : 'obj-') + m.k, key: m.k === 'ctor' ? 'ctor' : m.key.k, member: [st, this.pos()] });
  }
  /** decorators */
  decs(n) { for (const d of n.decs || []) { this.w('@'); this.e(d, PREC.call); this.wsl(); } }
  access() { if (this.an(5)) this.w(this.ty.of(['public ', 'private ', 'protected '])); }
  typeMember(abstract) {
    if (!this.an(6)) return;
    const u = this.uq++;
    this.w(this.ty.of(['declare d$: any;', 'private declare readonly e$: any;', '[k: string]: any;', 'declare static s$: any;', 'm$(): void; m$(a?: any): void;', ...(abstract ? ['abstract m$(a?: any): void;', 'abstract get g$(): any;', 'abstract x$: any;', 'protected abstract readonly y$?: any;', 'abstract set g$(v: any);'] : [])]).slice(0).replace(/\$/g, () => '9' + u)); this.nlb();
  }
  /** decorators before `export` */
  decsFirst(cl) { if (cl && cl.k === 'class' && cl.decsFirst) this.decs(cl); }
  cls(n, isDecl, exported) {
    if (!(exported && n.decsFirst)) this.decs(n);
    const abstract = isDecl && this.an(6);
    if (abstract) this.w('abstract ');
    this.w('class'); if (n.name) { this.ws(); this.w(n.name); this.tparams(); }
    if (n.sup) { this.ws(); this.w('extends'); this.ws(); this.e(n.sup, PREC.call); }
    if (n.name && this.an(5)) { this.ws(); this.w(this.ty.of(['implements I9', 'implements I9<any>, J9'])); }
    this.sp(); this.w('{'); this.nlb();
    for (const m of n.members) {
      this.typeMember(abstract);
      if ((m.k === 'method' || m.k === 'ctor') && !m.hint && !m.decs) this.overloads(() => { if (m.st) this.w('static '); this.w(m.k === 'ctor' ? 'constructor' : m.key.k === 'ident' ? m.key.name : JSON.stringify(m.key.v)); }, m.k === 'ctor' ? 'ctor' : m.key.k === 'ident' || m.key.k === 'strkey');
      this.hint(m); this.enterHint(m);
      const out = m.decs && m.fn && m.key.k === 'ident' && this.listed(m.key.name); // a listed method goes with its decorators
      if (out) this.ignored++;
      this.decs(m);
      if (out) this.ignored--;
      if (m.k === 'staticBlock') { this.w('static'); this.sp(); this.block(m.block); }
      else if (m.k === 'field') {
        if (m.key.k !== 'private') this.access();
        if (m.st) { this.w('static'); this.ws(); }
        if (this.an(7)) this.w('readonly ');
        this.key(m.key);
        if (this.ty) { if (m.key.k !== 'private' && this.an(7)) this.w('?'); else if (!m.v && this.an(7) && m.key.k !== 'private') { this.w('!: any'); } else this.ann(); }
        if (m.v) {
          this.sp(); this.w('='); this.sp();
          const id = this.id(m, 6); const s0 = this.pos();
          if (this.twin) { this.w('(' + this.probe(id) + ','); this.e(m.v, PREC.assign); this.w(')'); } else this.e(m.v, PREC.assign);
          this.addS({ kind: 'field', id, loc: [s0, this.pos()], key: m.key.k });
        }
        this.w(';');
      } else this.method(m, true);
      this.exitHint(m);
      this.nlb();
    }
    this.w('}');
  }
  // ---- expressions -------------------------------------------------------------
  // prints e in a slot of minimal precedence `min`; returns [outer range, inner range]
  e(e, min) {
    // what lies inside a hinted operand may be left out with it, or counted
    const firm = e.k === 'fn'; // a function with a hint goes as a whole
    this.hint(e); if (firm) this.enterHint(e); else if (e.hint === 'next') this.opt++;
    let par = e.parens || 0;
    if (par === 0 && (prec(e) < min || (e.k === 'bin' && e.op === 'in') || e.mustParen)) par = 1;
    const o0 = this.pos();
    for (let i = 0; i < par; i++) { this.w('('); this.sp(); }
    const i0 = this.pos();
    this.e0(e);
    const i1 = this.pos();
    for (let i = 0; i < par; i++) { this.sp(); this.w(')'); }
    if (firm) this.exitHint(e); else if (e.hint === 'next') this.opt--;
    return [[o0, this.pos()], [i0, i1]];
  }
  probed(id, e, min, extra) { // slot whose evaluation is counted
    if (this.twin) {
      this.w('(' + this.probe(id) + ',');
      if (extra !== undefined) this.w(`__q(${extra},`);
      const r = this.e(e, PREC.assign);
      if (extra !== undefined) this.w(')');
      this.w(')');
      return r;
    }
    return this.e(e, min);
  }
  args(list) { this.w('('); this.sp(); list.forEach((a, i) => { if (i) { this.sp(); this.w(','); this.sp(); } if (a.k === 'spread') { this.w('...'); this.e(a.e, PREC.assign); } else if (!a.hint && this.an(6)) { this.e(a, PREC.add); this.w(this.ty.of([' as any', ' as const', ' satisfies any', ' as unknown as any'])); } else this.e(a, PREC.assign); }); this.sp(); this.w(')'); }
  e0(e) {
    switch (e.k) {
      case 'num': this.w(String(e.v)); return;
      case 'str': this.w(this.ly && this.ly.n(2) ? quote1(e.v) : JSON.stringify(e.v)); return;
      case 'raw': this.w(e.s); return;
      case 'id': this.w(e.name); return;
      case 'superCall': this.w('super'); this.args(e.args || []); return;
      case 'unary': this.w(e.op.trim()); if (/[a-z]/.test(e.op)) this.ws(); else if (/[-+]/.test(e.op)) this.w(' '); this.e(e.e, PREC.unary); return;
      case 'await': this.w('await'); this.ws(); this.e(e.e, PREC.unary); return;
      case 'yield': this.w('yield'); if (e.star) this.w('*'); if (e.e) { this.wsl(); this.e(this.noLeadNl(e.e), PREC.assign); } return;
      case 'update': if (e.pre) this.w(e.op); this.w(e.name); if (!e.pre) this.w(e.op); return;
      case 'bin': {
        if (e.op === ',') { this.e(e.l, PREC.assign); this.sp(); this.w(','); this.sp(); this.e(e.r, PREC.assign); return; }
        const p = PREC[BINP[e.op]];
        const exp = e.op === '**';
        this.e(e.l, exp ? PREC.update : p); this.ws(); this.w(e.op); this.ws(); this.e(e.r, exp ? PREC.unary : p + 1); return;
      }
      case 'seq': e.es.forEach((q, i) => { if (i) { this.w(','); this.sp(); } this.e(q, PREC.assign); }); return;
      case 'cond': {
        const ids = [this.id(e, 1), this.id(e, 2)]; const st = this.pos();
        this.e(e.test, PREC.nullish); this.ws(); this.w('?'); this.ws();
        const c = this.probed(ids[0], e.cons, PREC.assign); this.ws(); this.w(':'); this.ws();
        const a = this.probed(ids[1], e.alt, PREC.assign);
        this.addB({ type: 'cond-expr', loc: [st, this.pos()], paths: [{ id: ids[0], loc: c[0], drop: e.cons.hint === 'next' }, { id: ids[1], loc: a[0], drop: e.alt.hint === 'next' }], node: e });
        return;
      }
      case 'logical': {
        const outer = !this.inLogical; let b = null;
        const st = this.pos();
        if (outer) b = this.logB = { type: 'binary-expr', paths: [], node: e };
        const saved = this.logB;
        this.logicalSides(e, saved);
        if (outer) { b.loc = [st, this.pos()]; this.addB(b); }
        return;
      }
      case 'call': { const r = this.e(e.callee, PREC.call); if (!/^[A-Za-z_$]+$/.test(e.callee.name || '')) this.sp0(); else this.targs(); this.args(e.args); return; }
      case 'assign': { if (e.l.k === 'id') this.w(e.l.name); else this.pat(e.l); this.sp(); this.w(e.op); this.sp(); this.e(e.r, PREC.assign); return; }
      case 'tpl': this.w('`' + e.q[0]); this.w('${'); this.e(e.es[0], PREC.seq); this.w('}' + e.q[1] + '`'); return;
      case 'tagged': {
        this.e(e.tag, PREC.call); this.w('`' + e.q[0] + '${'); this.e(e.es[0], PREC.seq); this.w('}' + e.q[1] + '`');
        return;
      }
      case 'member': this.e(e.o, PREC.member); if (e.o.k === 'id' && this.an(5)) this.w('!'); this.w('.' + e.p); return;
      case 'index': this.e(e.o, PREC.member); this.w('['); this.e(e.i, PREC.seq); this.w(']'); return;
      case 'optional': this.e(e.o.k === 'num' ? { ...e.o, parens: 1 } : e.o, PREC.member); this.w('?.' + e.p); if (e.call) this.w('?.()'); return;
      case 'fn': { const s = this.inLogical; this.inLogical = false; this.fn(e); this.inLogical = s; return; }
      case 'class': { const s = this.inLogical; this.inLogical = false; this.cls(e); this.inLogical = s; return; }
      case 'arr': this.w('['); e.els.forEach((q, i) => { if (i) { this.w(','); this.sp(); } if (q === null) return; if (q.k === 'spread') { this.w('...'); this.e(q.e, PREC.assign); } else this.e(q, PREC.assign); }); if (e.els.length && e.els[e.els.length - 1] === null) this.w(','); this.w(']'); return;
      case 'obj': {
        this.w('{'); this.sp();
        e.props.forEach((p, i) => {
          if (i) { this.sp(); this.w(','); this.sp(); }
          if (p.k === 'kv') { this.key(p.key); this.sp(); this.w(':'); this.sp(); this.e(p.v, PREC.assign); }
          else if (p.k === 'short') this.w(p.name);
          else if (p.k === 'spread') { this.w('...'); this.e(p.e, PREC.assign); }
          else { this.hint(p); this.enterHint(p); this.method(p, false); this.exitHint(p); }
        });
        this.sp(); this.w('}'); return;
      }
    }
    throw new Error('expr ' + e.k);
  }
  logicalSides(e, b) {
    const side = (q, right) => {
      // mixing ?? with && / || needs parentheses
      const mix = q.k === 'logical' && (q.parens || 0) === 0 && ((e.op === '??') !== (q.op === '??'));
      const qq = mix ? { ...q, parens: 1 } : q;
      const p = e.op === '&&' ? PREC.and : PREC.or;
      const min = right ? p + 1 : p;
      // a ?? b: operands of ?? must be at least bitwise-or level
      const m2 = e.op === '??' && qq.k !== 'logical' ? PREC.bor : min;
      if (qq.k === 'logical') {
        const s = this.inLogical; this.inLogical = true; const sb = this.logB; this.logB = b;
        this.e(qq, m2);
        this.inLogical = s; this.logB = sb;
      } else {
        const s = this.inLogical; this.inLogical = false;
        const id = this.id(q, 4), tid = this.id(q, 5);
        const r = this.probed(id, qq, m2, tid);
        b.paths.push({ id, tid, loc: r[0], drop: q.hint === 'next' });
        this.inLogical = s;
      }
    };
    side(e.l, false);
    this.ws(); this.w(e.op); this.ws();
    side(e.r, true);
  }
}
function leftmost(q) {
  switch (q.k) {
    case 'bin': case 'logical': return q.l;
    case 'cond': return q.test;
    case 'seq': return q.es[0];
    case 'call': return q.callee;
    case 'assign': return q.l.k === 'id' ? null : null;
    case 'member': case 'index': case 'optional': return q.o;
    case 'tagged': return q.tag;
    case 'update': return null;
    default: return null;
  }
}
function quote1(v) { return "'" + JSON.stringify(v).slice(1, -1).replace(/\\"/g, '"').replace(/'/g, "\\'") + "'"; }
function containsBlock(n) {
  if (!n || typeof n !== 'object') return false;
  if (Array.isArray(n)) return n.some(containsBlock);
  if (n.k === 'fn' && !n.exprBody) return true;
  if (n.k === 'staticBlock') return true;
  for (const k in n) if (typeof n[k] === 'object' && containsBlock(n[k])) return true;
  return false;
}
function printSource(p, layoutArr, opts = {}) {
  const pr = new Printer('source', layoutArr ? new Choices(layoutArr) : null, opts);
  pr.program(p);
  return { code: pr.text(), s: pr.s, f: pr.f, b: pr.b };
}
function printTwin(p, opts = {}) {
  const pr = new Printer('twin', null, opts); pr.program(p);
  return { code: pr.text() };
}
module.exports = { Printer, printSource, printTwin, containsBlock, HINT_STYLES };
