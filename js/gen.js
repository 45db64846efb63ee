'use strict';
// Program generator: a choice sequence (integers owned by fast-check) is decoded into an IR.
// Nothing here draws randomness of its own: exhausted sequences yield 0, the simplest choice.

class Choices {
  constructor(arr) { this.a = arr; this.i = 0; }
  n(max) { const v = this.i < this.a.length ? this.a[this.i++] : 0; return max > 0 ? v % max : 0; }
  done() { return this.i >= this.a.length; }
  p(pct) { return this.n(100) >= 100 - pct; } // 0 -> false
  of(list) { return list[this.n(list.length)]; }
  w(list) { // [[weight, value], ...]; 0 selects the first
    let tot = 0; for (const [w] of list) tot += w;
    let r = this.n(tot);
    for (const [w, v] of list) { if (r < w) return v; r -= w; }
    return list[0][1];
  }
}

const SPECIAL = ['path', 'hash', 'global', 'gcv', 'coverageData', 'coverage', 'actualCoverage', 'Array', 'Object', 'Function', 'temp', 'cov', 'exports_', 'ünïcode', '变量', '$', '_'];

const DEFAULTS = {
  budget: 130,          // IR nodes
  goal: 'module',      // module | script
  sloppy: true,        // sloppy-only constructs allowed where legal (script)
  hints: false,        // attach ignore hints
  tagged: true,        // tagged templates
  anonDefault: false,  // anonymous function directly as a default value / class field (loses its name)
  debuggerStmt: true,
  getters: true,       // object getters (observable under reportLogic inspection)
  async: true, generators: true, classes: true, modules: true, directives: true,
  strictProbe: true,
  banNames: [],        // special names not to declare (reportLogic refers to the globals Array and Object)
  declNames: null,     // names for some function and class declarations, each used once
  methodNames: null,   // pool for method names
  bias: {},            // extra weight of statement and expression kinds
};

class Gen {
  constructor(choices, opts = {}) {
    this.c = choices;
    this.o = { ...DEFAULTS, ...opts };
    this.budget = this.o.budget;
    this.uid = this.o.uidBase || 0; this.tid = this.o.uidBase || 0; this.lid = 0;
    this.scopes = [];
    this.special = [];
    this.feat = new Map();
  }
  f(name) { this.feat.set(name, (this.feat.get(name) || 0) + 1); }
  use(n = 1) { this.budget -= n; return this.budget > 0; }
  // ---- scopes -------------------------------------------------------------
  push(kind) { this.scopes.push({ kind, names: [], own: new Set() }); }
  pop() { this.scopes.pop(); }
  fresh() {
    if (this.c.n(12) === 11) {
      const s = SPECIAL[this.c.n(SPECIAL.length)];
      if (!this.special.includes(s) && !this.o.banNames.includes(s)) { this.special.push(s); this.f('specialName'); return s; }
    }
    return 'v' + this.uid++;
  }
  declare(name, info = {}) { this.scopes[this.scopes.length - 1].names.push({ name, ...info }); this.scopes[this.scopes.length - 1].own.add(name); return name; }
  visible() { const r = []; for (const s of this.scopes) for (const n of s.names) r.push(n); return r; }
  varRef() {
    const v = this.visible();
    if (!v.length) return null;
    return v[v.length - 1 - this.c.n(Math.min(v.length, 8))];
  }
  lexName() { // a let/const/param name, sometimes shadowing an outer one
    const s = this.scopes[this.scopes.length - 1];
    if (this.c.n(6) === 5) {
      const outer = this.visible().filter(v => !v.isVar && !s.own.has(v.name));
      if (outer.length) { const v = outer[this.c.n(outer.length)]; if (!this.varNames || !this.varNames.has(v.name)) { this.f('shadow'); return v.name; } }
    }
    return this.fresh();
  }
  // ---- program -------------------------------------------------------------
  program() {
    const o = this.o;
    this.ctx = { fn: null, async: false, gen: false, strict: o.goal === 'module', labels: [], loop: 0, sw: 0, inFn: false, top: true, cls: false };
    this.push('fn');
    const p = { k: 'program', goal: o.goal, dirs: [], body: [] };
    if (o.directives) p.dirs = this.directives();
    if (p.dirs.some(d => d.v === 'use strict')) this.ctx.strict = true;
    const n = 2 + this.c.n(8);
    // every item gets its share, so that one deep statement does not use up the program
    const total = this.o.budget, share = Math.max(9, Math.ceil(total / n));
    let left = total;
    for (let i = 0; i < n || (left > 0 && i < 16 && this.c.n(4)); i++) {
      if ((left <= 0 || this.c.done()) && i > 0) break;
      const give = Math.min(left, this.c.n(3) ? share : 2 * share);
      this.budget = give;
      // a TypeScript compiler drops empty statements, and what follows would be a directive then
      const body = (!o.ts || p.body.some(s => s.k !== 'empty' && s.k !== 'namespace'));
      p.body.push(i > 0 && this.c.n(25) === 24 && body ? this.late() : this.topItem());
      left -= Math.max(1, give - this.budget);
    }
    this.pop();
    p.feat = this.feat;
    return p;
  }
  directives() {
    const r = [];
    while (r.length < 2 && this.c.n(8) === 7) {
      const v = this.c.of(['use strict', 'use client', 'use server', 'use foo']);
      if (v === 'use strict' && this.noUseStrict) break;
      r.push({ v, q: this.c.of(["'", '"']) });
      this.f('directive:' + v);
    }
    return r;
  }
  // a string statement that is not in a directive prologue
  late() { this.f('lateString'); return { k: 'late', v: this.c.of(['use strict', 'use asm', 'use foo']), q: this.c.of(['"', "'"]) }; }
  // TypeScript constructs that leave code behind: namespaces and enums at the top
  nsItem() {
    const c = this.c;
    if (c.n(2)) {
      const name = 'E' + this.uid++; this.f('enum');
      const members = []; let lit = true;
      for (let i = 1 + c.n(3); i > 0; i--) {
        const w = c.n(lit ? 5 : 4);
        lit = w === 0 || w === 4;
        members.push({ key: c.n(4) ? { k: 'ident', name: 'M' + this.uid++ } : { k: 'strkey', v: 's ' + this.uid++ }, e: w === 4 ? null : w === 0 ? { k: 'num', v: c.n(9) } : this.expr(2) });
      }
      this.declare(name, { cls: true });
      return this.hn({ k: 'enum', name, members, exp: this.o.goal === 'module' && !this.inNs && c.n(2) > 0 }, 8, 'enum');
    }
    const name = 'N' + this.uid++; this.f('namespace');
    const sub = c.n(5) === 4 ? '.M' + this.uid++ : ''; if (sub) this.f('namespace:dotted');
    const n = { k: 'namespace', name, sub, kw: c.of(['namespace', 'namespace', 'module']), body: [], exp: this.o.goal === 'module' && !this.inNs && c.n(2) > 0 };
    const save = this.inNs; this.inNs = true;
    this.withFn({ async: false, gen: false, noReturn: true, inFn: false }, () => {
      this.push('fn');
      for (let i = c.n(4); i >= 0 && this.budget > -10; i--) {
        const w = c.n(8);
        if (w === 7) n.body.push(this.nsItem());
        else if (w === 6) n.body.push(this.hn({ k: 'export', d: c.n(2) && this.o.classes ? this.classDecl() : this.fnDecl() }, 6, 'export'));
        else if (w === 5) { const d = this.varDecl({ export: true }); n.body.push(this.hn({ k: 'export', d }, 6, 'export')); }
        else n.body.push(this.stmt(3));
      }
      // the compiler drops a namespace without any, and a type in it is one to some of its passes
      if (n.body.every(b => b.k === 'empty' || b.k === 'namespace')) n.body.push({ k: 'expr', e: { k: 'num', v: 1 }, semi: true });
      this.pop();
    });
    this.inNs = save;
    this.declare(name, { isNs: true });
    return this.hn(n, 8, 'namespace');
  }
  topItem() {
    if (this.o.namespaces && this.c.n(6) === 5) return this.nsItem();
    if (this.o.goal === 'module' && this.o.modules) {
      const k = this.c.n(12);
      if (k === 11) { // export const/let/var
        const d = this.varDecl({ export: true }); this.f('export'); return this.hn({ k: 'export', d }, 6, 'export'); }
      if (k === 10) {
        this.f('export');
        const d = this.c.n(2) && this.o.classes ? this.classDecl() : this.fnDecl();
        return this.hn({ k: 'export', d }, 6, 'export');
      }
      if (k === 9 && !this.hasDefault) {
        this.hasDefault = true; this.f('exportDefault');
        const w = this.c.n(3);
        if (w === 0) return this.hn({ k: 'exportDefaultExpr', e: this.expr(2) }, 6, 'exportDefault');
        if (w === 1) { const named = this.c.n(3) === 2; if (named) this.f('exportDefaultNamed'); const fn = named ? this.fnDecl().fn : this.fnLike('expr'); return this.hn({ k: 'exportDefaultFn', e: fn }, 6, 'exportDefault'); }
        return this.hn({ k: 'exportDefaultFn', e: this.classLike(this.c.n(2) ? this.fresh() : null) }, 6, 'exportDefault');
      }
    }
    return this.stmt(4);
  }
  // ---- statements ------------------------------------------------------------
  block(d, inner) {
    this.push('block'); if (inner) inner();
    const n = this.c.n(4);
    const body = [];
    for (let i = 0; i < n && this.budget > 0 && !(i && this.c.done()); i++) body.push(this.stmt(d - 1));
    this.pop();
    return { k: 'block', body };
  }
  // an ignore hint on a node that is not a statement of a list
  hn(n, p, what) { if (this.o.hints && this.c.n(p) === p - 1) { n.hint = 'next'; n.hintStyle = this.c.n(8); this.f('hint:' + what); } return n; }
  hblock(d, what = 'block') { return this.hn(this.block(d), 10, what); }
  body(d) { // statement used as a body: block or a single statement
    if (this.c.n(3) < 2) return this.hblock(d);
    return this.single(d);
  }
  single(d) { // non-declaration statement
    const save = this.noDecl; this.noDecl = true;
    const s = this.stmt(d - 1); this.noDecl = save; return s;
  }
  stmt(d) {
    this.use();
    const c = this.c, x = this.ctx;
    const noDecl = this.noDecl; this.noDecl = false;
    let s;
    if (d <= 0 || this.budget <= 0) s = this.exprStmt(1);
    else {
      const opts = [
        [14, 'expr'], [10, 'if'], [4, 'ret'], [5, 'for'], [4, 'while'], [3, 'dowhile'], [3, 'forof'], [2, 'forin'], [7, 'switch'], [6, 'try'],
        [2, 'block'], [2, 'label'], [2, 'throw'], [1, 'empty'], [1, 'debugger'], [1, 'with'], [4, 'jump'], [1, 'forawait'], [this.ctx.inFn ? 4 : 9, 'calls'], [3, 'counted'], [1, 'counterish'],
      ];
      if (!noDecl) opts.push([12, 'var'], [6, 'fn'], [5, 'class']);
      s = this.stmtOf(c.w(this.weigh(opts)), d);
    }
    this.noDecl = noDecl;
    if (this.o.hints && this.c.n(10) === 9 && s.k !== 'empty') { s.hint = this.c.of(['next', 'next', 'next', 'if', 'else']); s.hintStyle = this.c.n(8); this.f('hint:' + s.k + ':' + s.hint); }
    return s;
  }
  weigh(opts) { const b = this.o.bias; return Object.keys(b).length ? opts.map(([w, k]) => [w + (b[k] || 0), k]) : opts; }
  exprStmt(d) { return { k: 'expr', e: this.expr(d), semi: true }; }
  stmtOf(kind, d) {
    const c = this.c, x = this.ctx;
    switch (kind) {
      case 'expr': return this.exprStmt(3);
      case 'if': {
        this.f('if');
        const s = { k: 'if', test: this.expr(2), cons: this.body(d), alt: null };
        const a = c.n(3);
        if (a === 1) s.alt = this.body(d); else if (a === 2) s.alt = this.stmtOf('if', d - 1 > 0 ? d - 1 : 1);
        if (s.alt && s.cons.k !== 'block') s.cons = { k: 'block', body: [s.cons] };
        if (!s.alt && s.cons.k !== 'block') { /* dangling else is resolved by wrapping in the parent */ s.open = true; }
        if (this.budget < -40) s.alt = null;
        return s;
      }
      case 'ret': if (!x.inFn || x.noReturn) return this.exprStmt(3); this.f('return'); return { k: 'return', e: c.n(5) ? this.expr(3) : null };
      case 'throw': if (!x.inFn && !this.inTry && c.n(4)) return this.exprStmt(3); this.f('throw'); return { k: 'throw', e: this.expr(1) };
      case 'counterish': this.f('counterish'); return { k: 'expr', e: { k: 'raw', s: c.of(['covered', 'cov_user', 'cov_1']) + '()' + c.of(['.s[0]', '.b[0][1]', '.f[2]', '.hits[0]', '.cov', '.s["0"]']) + c.of(['++', '++', '--', ' += 1']) }, semi: true };
      case 'empty': return { k: 'empty' };
      case 'debugger': if (c.n(3) === 2) return { k: 'block', body: [this.late()] }; return this.o.debuggerStmt ? (this.f('debugger'), { k: 'debugger' }) : { k: 'empty' };
      case 'block': return this.block(d);
      case 'jump': {
        const ls = x.labels.filter(l => l.loop || true);
        const w = c.n(3);
        if (w === 0 && x.loop) { this.f('continue'); return { k: 'continue', label: null }; }
        if (w === 1 && ls.length) {
          const l = ls[ls.length - 1 - c.n(ls.length)];
          if (l.loop && c.n(2)) { this.f('continueLabel'); return { k: 'continue', label: l.name }; }
          this.f('breakLabel'); return { k: 'break', label: l.name };
        }
        if (x.loop || x.sw) { this.f('break'); return { k: 'break', label: null }; }
        return this.exprStmt(3);
      }
      case 'label': {
        const name = 'L' + this.lid++;
        const loopKind = c.of(['for', 'while', 'dowhile', 'forof', 'block', 'expr', 'if', 'switch', 'label']);
        const loop = ['for', 'while', 'dowhile', 'forof'].includes(loopKind);
        x.labels.push({ name, loop: loop });
        const save = this.noDecl; this.noDecl = false;
        const s = { k: 'label', name, body: this.stmtOf(loopKind, Math.max(1, d - 1)) };
        this.noDecl = save;
        x.labels.pop();
        this.f('label:' + loopKind);
        return s;
      }
      case 'calls': { // call something declared earlier
        const vs = this.visible().filter(v => v.fn || v.fnInit || v.cls); if (!vs.length) return this.exprStmt(3);
        this.f('calls'); const v = vs[vs.length - 1 - c.n(Math.min(4, vs.length))];
        if (v.cls) return { k: 'expr', e: { k: 'call', callee: { k: 'id', name: c.n(2) ? 'N' : 'M' }, args: [{ k: 'id', name: v.name }] }, semi: true };
        const args = []; const n = c.n(3); for (let i = 0; i < n; i++) args.push(c.n(2) ? this.arrLit(1) : this.expr(1));
        return { k: 'expr', e: this.t({ k: 'call', callee: { k: 'id', name: 'C' }, args: [{ k: 'id', name: v.name }, ...args] }), semi: true };
      }
      case 'counted': { // a loop that really iterates
        this.f('for'); this.push('block');
        const name = this.lexName(); this.declare(name, {});
        const s = { k: 'for', init: { k: 'var', dk: 'let', ds: [{ pat: { k: 'id', name }, init: { k: 'num', v: 0 } }] }, test: { k: 'bin', op: '<', l: { k: 'id', name }, r: { k: 'num', v: 2 + c.n(3) } }, update: { k: 'update', op: '++', pre: !!c.n(2), name } };
        x.loop++; s.body = this.body(d); x.loop--; this.pop(); return s;
      }
      case 'for': {
        this.f('for'); this.push('block');
        let init = null; const w = c.n(4);
        if (w < 2) init = this.varDecl({ forInit: true }); else if (w === 2) init = { k: 'exprInit', e: this.expr(2) };
        const s = { k: 'for', init, test: c.n(8) === 7 ? this.loopTest(this.logicalExpr(2)) : this.loopTest(this.expr(2)), update: c.n(4) ? this.expr(2) : null };
        x.loop++; s.body = this.body(d); x.loop--; this.pop(); return s;
      }
      case 'while': { this.f('while'); const s = { k: 'while', test: this.loopTest(this.expr(2)) }; x.loop++; s.body = this.body(d); x.loop--; return s; }
      case 'dowhile': { this.f('dowhile'); const s = { k: 'dowhile' }; x.loop++; s.body = this.body(d); x.loop--; s.test = this.loopTest(this.expr(2)); return s; }
      case 'forof': case 'forin': case 'forawait': {
        if (kind === 'forawait' && !x.async) kind = 'forof';
        this.f(kind);
        this.push('block');
        const s = { k: kind, right: kind === 'forin' ? this.objLit(1) : this.iterable(), decl: null, target: null };
        const w = c.n(4); const ref = this.varRef();
        if (w === 3 && ref && ref.mut) s.target = { k: 'id', name: ref.name };
        else { s.dk = c.of(['const', 'let', 'var']); s.pat = this.pattern(s.dk, kind === 'forin' ? 0 : 1); }
        x.loop++; s.body = this.body(d); x.loop--; this.pop(); return s;
      }
      case 'switch': {
        this.f('switch');
        const s = { k: 'switch', disc: this.expr(2), cases: [] };
        x.sw++; this.push('block');
        const n = c.n(5); const def = c.n(n + 2);
        for (let i = 0; i < n; i++) {
          const cs = { k: 'case', test: i === def ? null : this.expr(c.n(3) ? 0 : 2), body: [] };
          const m = c.n(3);
          for (let j = 0; j < m && this.budget > 0; j++) cs.body.push(this.stmt(d - 1));
          if (c.n(3) === 0) cs.body.push({ k: 'break', label: null });
          if (this.o.hints && c.n(12) === 11) { cs.hint = 'next'; cs.hintStyle = c.n(8); this.f('hint:case'); }
          s.cases.push(cs);
        }
        this.pop(); x.sw--;
        if (s.cases.some(q => q.test === null)) this.f('switchDefault');
        return s;
      }
      case 'try': {
        this.f('try');
        const w = c.n(3);
        const it = this.inTry; if (w < 2) this.inTry = true;
        const s = { k: 'try', block: this.hblock(d, 'tryBlock'), param: null, handler: null, fin: null };
        this.inTry = it;
        if (w < 2) { this.push('block'); if (c.n(3)) { this.inCatch = true; s.param = this.pattern('let', 1); this.inCatch = false; } s.handler = this.hblock(d, 'catchBlock'); this.pop(); }
        if (w > 0) s.fin = this.hblock(d, 'finallyBlock');
        return s;
      }
      case 'with': {
        if (this.o.ts) return this.exprStmt(3);
        if (x.strict || this.o.goal === 'module' || !this.o.sloppy) return this.exprStmt(3);
        this.f('with'); return { k: 'with', obj: this.withObj(), body: this.body(d) };
      }
      case 'var': return this.varDecl({});
      case 'fn': return this.fnDecl();
      case 'class': return this.classesOk() ? this.classDecl() : this.fnDecl();
    }
    throw new Error('stmt kind ' + kind);
  }
  withObj() { // an object whose properties may hide variables of the program, or whatever an expression gives (with(null) throws)
    const c = this.c, w = c.n(5);
    if (w < 2) return this.objLit(1);
    if (w === 2) return this.expr(1);
    if (w === 3) return c.n(2) ? { k: 'raw', s: 'null' } : { k: 'call', callee: { k: 'id', name: 'X' }, args: [{ k: 'num', v: this.tid++ }] };
    this.f('withGetter'); const props = [];
    for (let i = 1 + c.n(2); i > 0; i--) { const v = this.varRef(); if (v && /^[A-Za-z]/.test(v.name) && this.o.getters && !props.some(p => p.key.name === v.name)) props.push(c.n(3) ? { k: 'getter', key: { k: 'ident', name: v.name }, fn: this.fnLike('getter') } : { k: 'kv', key: { k: 'ident', name: v.name }, v: this.expr(1) }); }
    return { k: 'obj', props };
  }
  loopTest(e) { return { k: 'call', callee: { k: 'id', name: 'F' }, args: [e] }; }
  varDecl({ forInit = false, export: exp = false }) {
    const c = this.c;
    const dk = c.of(['const', 'let', 'var']);
    const s = { k: 'var', dk, ds: [] };
    this.f('decl:' + dk);
    const n = c.n(6) === 5 ? 2 : 1;
    for (let i = 0; i < n; i++) {
      const needInit = dk === 'const';
      const simple = c.n(4) !== 3;
      if (simple) {
        let init = null;
        if (needInit || c.n(5)) {
          if (c.n(3) === 2) { init = this.fnArg(); this.f('fnInit'); } else init = this.expr(3);
          // later initialisers that are functions or tagged templates are counted early (see known_findings.json)
          if (i > 0 && isHoisted(init) && !this.o.laterFn) init = { k: 'arr', els: [init] };
        }
        const name = dk === 'var' ? this.varName() : this.lexName();
        s.ds.push(init && !exp ? this.hn({ pat: { k: 'id', name }, init }, 10, 'declarator') : { pat: { k: 'id', name }, init });
        this.declare(name, { mut: dk !== 'const', isVar: dk === 'var', fnInit: !!init && (init.k === 'fn' || init.k === 'class'), cls: !!init && init.k === 'class' });
      } else {
        const init = c.n(2) ? this.objLit(2) : this.arrLit(2);
        const pat = init.k === 'obj' ? this.objPattern(dk, 1) : this.arrPattern(dk, 1);
        s.ds.push(exp ? { pat, init } : this.hn({ pat, init }, 10, 'declarator'));
        this.f('destructure');
      }
    }
    return s;
  }
  // a name of the pool, or a fresh one
  declName(fresh) {
    const q = this.o.declNames; if (!q || this.c.n(2)) return fresh();
    const n = this.c.of(q); if (!this.declared) this.declared = new Set();
    if (this.declared.has(n)) return fresh(); this.declared.add(n); this.f('declName'); return n;
  }
  varName() { const n = 'w' + this.uid++; return n; }
  noFn(g) { const s = this.banFn; this.banFn = true; const r = g(); this.banFn = s; return r; }
  pattern(dk, d) {
    const k = d > 0 ? this.c.n(4) : 0;
    if (k === 3) return this.objPattern(dk, d - 1);
    if (k === 2) return this.arrPattern(dk, d - 1);
    const name = dk === 'var' ? this.varName() : this.lexName();
    this.declare(name, { mut: dk !== 'const', isVar: dk === 'var' });
    return { k: 'id', name };
  }
  patDef(dk, d) { // pattern with optional default
    const p = this.pattern(dk, d);
    if (this.c.n(3) === 2) { this.f('patDefault'); return this.hn({ k: 'assignPat', left: p, right: this.defaultValue() }, 8, 'default'); }
    return p;
  }
  defaultValue() {
    const e = this.noFn(() => this.expr(2));
    if (this.o.hints && this.c.n(8) === 7) { e.hint = 'next'; e.hintStyle = this.c.n(8); e.parens = 0; this.f('hint:defaultValue'); return e; }
    if (this.o.anonDefault && this.c.n(3) === 2) return this.anonFn();
    if (!this.banFn && this.c.n(4) === 3 && this.budget > 0) { // function inside, but not a named evaluation
      return { k: 'call', callee: { k: 'id', name: 'C' }, args: [this.fnExprLike()] };
    }
    return e;
  }
  objPattern(dk, d) {
    const props = []; const n = 1 + this.c.n(2);
    for (let i = 0; i < n; i++) {
      const w = this.c.n(3);
      const key = this.c.of(['p', 'q', 'r']);
      if (w === 0) props.push({ key: { k: 'ident', name: key }, val: this.patDef(dk, d) });
      else if (w === 1) props.push({ key: { k: 'computed', e: { k: 'str', v: key } }, val: this.patDef(dk, d) });
      else { // shorthand
        const name = dk === 'var' ? this.varName() : this.fresh(); this.declare(name, { mut: dk !== 'const', isVar: dk === 'var' });
        const def = this.c.n(2) ? this.defaultValue() : null;
        if (def) this.f('shorthandDefault');
        props.push(def ? this.hn({ short: name, def }, 8, 'shorthandDefault') : { short: name, def });
      }
    }
    const rest = this.c.n(5) === 4 ? (dk === 'var' ? this.varName() : this.fresh()) : null;
    if (rest) this.declare(rest, { mut: dk !== 'const', isVar: dk === 'var' });
    return { k: 'objPat', props, rest };
  }
  arrPattern(dk, d) {
    const els = []; const n = 1 + this.c.n(2);
    for (let i = 0; i < n; i++) els.push(this.c.n(6) === 5 ? null : this.patDef(dk, d));
    const rest = this.c.n(5) === 4 ? this.pattern(dk, 0) : null;
    return { k: 'arrPat', els, rest };
  }
  fnDecl() {
    const name = this.declName(() => this.varName());
    // declared before its body so that it can call itself through C()
    this.declare(name, { fn: true, isVar: true });
    const fn = this.fnLike('decl', name);
    this.f('fnDecl');
    return { k: 'fnDecl', fn };
  }
  classDecl() { const name = this.declName(() => this.fresh()); const cl = this.classLike(name, true); this.declare(name, { cls: true }); this.f('classDecl'); return { k: 'classDecl', cl }; }
  iterable() { const w = this.c.n(8); if (w === 7) return this.expr(1); return this.arrLit(1); }
  // ---- functions ---------------------------------------------------------------
  withFn(extra, g) {
    const save = this.ctx, banFn = this.banFn, noDecl = this.noDecl; this.banFn = false; this.noDecl = false;
    this.ctx = { ...save, labels: [], loop: 0, sw: 0, inFn: true, noReturn: false, top: false, ...extra };
    const r = g();
    this.ctx = save; this.banFn = banFn; this.noDecl = noDecl;
    return r;
  }
  params(simpleOnly) {
    const ps = []; const n = this.c.n(3);
    for (let i = 0; i < n; i++) {
      if (simpleOnly) { const name = this.fresh(); this.declare(name, { mut: true }); ps.push({ k: 'id', name }); }
      else { const p = this.patDefParam(); ps.push(p); }
    }
    let rest = null;
    if (!simpleOnly && this.c.n(8) === 7) { rest = this.fresh(); this.declare(rest, { mut: true }); this.f('rest'); }
    return { ps, rest };
  }
  patDefParam() {
    const save = this.ctx; this.ctx = { ...save, async: false, gen: false }; // no await/yield in parameters
    const w = this.c.n(5); let p;
    const fresh = () => { const name = this.fresh(); this.declare(name, { mut: true }); return { k: 'id', name }; };
    if (w < 3) p = fresh();
    else if (w === 3) p = this.objPattern('let', 0); else p = this.arrPattern('let', 0);
    if (this.c.n(3) === 2) { this.f('paramDefault'); p = this.hn({ k: 'assignPat', left: p, right: this.defaultValue() }, 8, 'paramDefault'); }
    else if (w >= 3 && this.c.n(4)) { this.f('paramDefault'); p = { k: 'assignPat', left: p, right: w === 3 ? this.noFn(() => this.objLit(1)) : this.arrLit(1) }; }
    this.ctx = save;
    return p;
  }
  fnLike(kind, name = null, extra = {}) {
    // kind: decl | expr | method | getter | setter | arrow | ctor
    const c = this.c;
    const fn = { k: 'fn', kind, name, async: false, gen: false, dirs: [], params: [], rest: null, body: null };
    if (this.o.async && c.n(6) === 5 && !['getter', 'setter', 'ctor'].includes(kind)) fn.async = true;
    if (this.o.generators && c.n(6) === 5 && !['getter', 'setter', 'ctor', 'arrow'].includes(kind)) fn.gen = true;
    if (fn.async) this.f('async'); if (fn.gen) this.f('generator');
    this.withFn({ async: fn.async, gen: fn.gen, ...(kind === 'arrow' ? {} : { argsOk: true, metaOk: true, superOk: !['decl', 'expr'].includes(kind) }), ...extra }, () => {
      this.push('fn');
      const dirs = this.o.directives && c.n(10) === 9;
      if (kind === 'getter') { fn.params = []; }
      else if (kind === 'setter') { const q = dirs ? { k: 'id', name: this.declare(this.fresh(), { mut: true }) } : this.patDefParam(); fn.params = [q]; }
      else { const r = this.params(dirs); fn.params = r.ps; fn.rest = r.rest; }
      // TypeScript: a parameter which becomes a property (not where the compiler has lowered it: it makes statements without a position)
      if (kind === 'ctor' && this.o.ts && this.o.namespaces) for (const p of fn.params) if ((p.k === 'id' || p.k === 'assignPat' && p.left.k === 'id') && !p.hint && c.n(3) === 2) { this.f('paramProp'); p.acc = c.of(['private ', 'public ', 'readonly ', 'protected readonly ']); }
      if (dirs && !(kind === 'arrow' && c.n(2))) { fn.dirs = this.fnDirectives(); if (fn.dirs.some(q => q.v === 'use strict')) { this.ctx.strict = true; this.f('fnUseStrict'); } }
      if (kind === 'arrow' && fn.dirs.length === 0 && c.n(2) === 0) { fn.exprBody = this.expr(2); this.f('arrowExpr'); }
      else {
        const n = c.n(4); const body = [];
        for (let i = 0; i < n && this.budget > 0 && !(i && this.c.done()); i++) body.push(this.stmt(3));
        fn.body = body;
        if (extra.superCall) {
          const args = []; for (let i = c.n(3); i > 0; i--) args.push(c.n(4) === 3 ? { k: 'call', callee: { k: 'id', name: 'X' }, args: [{ k: 'num', v: this.tid++ }] } : this.expr(1));
          fn.body.splice(c.n(6) === 5 ? 1 : 0, 0, { k: 'expr', e: { k: 'superCall', args }, semi: true });
        }
      }
      this.pop();
    });
    this.use();
    this.f('fn:' + kind);
    return fn;
  }
  fnDirectives() {
    const r = [{ v: this.c.of(['use strict', 'use foo', 'use server']), q: this.c.of(["'", '"']) }];
    if (this.c.n(4) === 3) r.push({ v: this.c.of(['use bar', 'use strict']), q: "'" });
    for (const d of r) this.f('fnDirective:' + d.v);
    return r;
  }
  fnArg() { const f = this.fnExprLike(); return f.k === 'fn' ? this.hn(f, 8, 'fn') : f; }
  anonFn() { const w = this.c.n(4); return w < 2 ? this.fnLike('arrow') : w === 2 || !this.classesOk() ? this.fnLike('expr') : this.classLike(null); }
  fnExprLike() {
    const w = this.c.n(6);
    if (w < 3) return this.fnLike('arrow');
    if (w === 3) return this.fnLike('expr');
    if (w === 4) { const n = this.o.methodNames ? this.c.of(this.o.methodNames) : this.fresh(); return this.fnLike('expr', n); }
    return this.classesOk() ? this.classLike(this.c.n(2) ? this.fresh() : null) : this.fnLike('arrow');
  }
  propKey(cls) {
    const w = this.c.n(10);
    if (w < 5) return { k: 'ident', name: this.o.methodNames ? this.c.of(this.o.methodNames) : this.c.of(['m', 'n', 'foo', 'get', 'set', 'async', 'static', 'p', 'q']) };
    if (w < 7) { this.f('key:str'); return { k: 'strkey', v: this.c.of(['s t', 'foo', 'm-1', 'p', 'a"b', "c'd", 'e\\f', 'g\nh', 'i*/j', 'ké\u2028', '`${l}`', '']) }; }
    if (w === 7) { this.f('key:num'); return { k: 'numkey', v: this.c.of([0, 1, 42, 1.5, 65536]) }; }
    if (w === 8) { this.f('key:computed'); return { k: 'computed', e: this.noFn(() => this.expr(1)) }; }
    if (cls) { this.f('key:private'); return { k: 'private', name: 'p' + this.uid++ }; }
    return { k: 'ident', name: 'q' };
  }
  // swc confuses the decorators of a class with the members of a class inside it
  classesOk() { return this.o.classes && !this.inDecorated; }
  classLike(name, isDecl) {
    const save = this.inDecorated;
    if (this.o.plainClassExprKeys && isDecl) this.inDecorated = true;
    try { return this.classLike0(name, isDecl); } finally { this.inDecorated = save; }
  }
  classLike0(name, isDecl) {
    const c = this.c; this.f('class');
    const cl = { k: 'class', name, sup: null, members: [] };
    // class expressions: swc lowers them by moving keys and decorators to the next statement around
    const decorated = this.o.decorators === 'all' || (this.o.decorators && isDecl);
    const decs = decorated && this.decs('class'); if (decs) { cl.decs = decs; cl.decsFirst = c.n(2) === 1; /* before `export` where it is exported */ }
    const saveCtx = this.ctx;
    this.ctx = { ...saveCtx, strict: true };
    if (c.n(4) === 3) { this.f('extends'); cl.sup = c.n(2) ? { k: 'id', name: 'B' } : this.noFn(() => ({ k: 'seq', es: [this.expr(1), { k: 'id', name: 'B' }] })); }
    this.push('block');
    const n = c.n(5); let ctor = false;
    for (let i = 0; i < n && this.budget > -10; i++) {
      const w = c.n(9); const st = c.n(4) === 3;
      let m;
      if (w < 3) { const key = this.clsKey(st, isDecl); m = { k: 'method', st, key, fn: this.fnLike('method', null, { cls: true }) }; }
      else if (w === 3 && !ctor) { ctor = true; this.f('ctor'); m = { k: 'ctor', fn: this.fnLike('ctor', null, { cls: true, superCall: !!cl.sup, async: false, gen: false }) }; }
      else if (w === 4 && this.o.getters) { const key = this.clsKey(st, isDecl); m = { k: 'getter', st, key, fn: this.fnLike('getter', null, { cls: true }) }; this.f('cgetter'); }
      else if (w === 5) { const key = this.clsKey(st, isDecl); m = { k: 'setter', st, key, fn: this.fnLike('setter', null, { cls: true }) }; this.f('csetter'); }
      else if (w === 6 && c.n(2)) {
        this.f('staticBlock');
        m = { k: 'staticBlock', block: this.withFn({ async: false, gen: false, noReturn: true, inFn: false, staticBlock: true, argsOk: false, metaOk: true, superOk: true }, () => this.block(2)) };
      } else {
        this.f('field');
        const key = this.clsKey(st, isDecl);
        let v = null;
        const saveField = this.inField; this.inField = true; // swc finds `arguments` of functions inside in the field
        if (c.n(5)) v = this.withFn({ async: false, gen: false, noReturn: true, inFn: false, field: true, argsOk: false, metaOk: true, superOk: true }, () => {
          const v = this.expr(2);
          if (isFnLike(v)) { this.f('fieldFn'); return { k: 'arr', els: [v] }; } // see known_findings.json
          return v;
        });
        this.inField = saveField;
        m = { k: 'field', st, key, v };
      }
      if (decorated && m.k !== 'staticBlock' && m.k !== 'ctor') { const ds = this.decs(m.k); if (ds) m.decs = ds; }
      if (this.o.hints && m.k !== 'staticBlock' && !m.decs && c.n(10) === 9) { m.hint = 'next'; m.hintStyle = c.n(8); this.f('hint:member:' + m.k); }
      cl.members.push(m);
    }
    this.pop();
    this.ctx = saveCtx;
    return cl;
  }
  /** decorators of a class or member: calls of DEC with any argument */
  decs(what) {
    if (this.c.n(2)) return null;
    this.f('dec:' + what);
    const r = [], save = this.ctx; this.ctx = { ...save, argsOk: false }; // swc finds `arguments` of a decorator in the field around
    for (let i = this.c.n(3) === 2 ? 2 : 1; i > 0; i--) r.push({ k: 'call', callee: { k: 'id', name: 'DEC' }, args: [this.expr(2)] });
    this.ctx = save;
    return r;
  }
  clsKey(st, isDecl) {
    // swc lowers decorators by moving the keys of every class expression to the statement around
    if (this.o.plainClassExprKeys && !isDecl) return { k: 'ident', name: this.c.of(['m', 'n', 'foo', 'p', 'q']) };
    const k = this.propKey(true);
    const nm = k.k === 'ident' ? k.name : k.k === 'strkey' ? k.v : null;
    if (nm === 'constructor' || (st && nm === 'prototype')) return { k: 'ident', name: 'm' };
    return k;
  }
  // ---- expressions ---------------------------------------------------------------
  t(e) { return { k: 'call', callee: { k: 'id', name: 't' }, args: [{ k: 'num', v: this.tid++ }, e] }; }
  leaf() {
    const c = this.c, x = this.ctx;
    const w = c.n(14);
    switch (w) {
      case 13: return this.meta();
      case 12: this.f('accessorRead'); return { k: 'id', name: c.of(['G0', 'G1']) };
      case 0: return { k: 'num', v: this.c.n(4) };
      case 1: case 2: case 3: return this.t({ k: 'call', callee: { k: 'id', name: 'I' }, args: [] });
      case 4: case 5: { const v = this.varRef(); return v ? { k: 'id', name: v.name } : { k: 'num', v: 7 }; }
      case 6: return { k: 'str', v: c.of(['', 'a', 'p', 'é', '中文', 'a"b\'c', 'line\\n', '</script>']) };
      case 7: return { k: 'raw', s: c.of(['null', 'undefined', 'true', 'false', 'NaN']) };
      case 8: return { k: 'obj', props: [] };
      case 9: return { k: 'arr', els: [] };
      case 10: return this.t({ k: 'num', v: this.c.n(3) });
      default: return x.inFn && !x.field && !x.staticBlock ? { k: 'call', callee: { k: 'id', name: 'T' }, args: [{ k: 'raw', s: 'this' }] } : { k: 'num', v: 9 };
    }
  }
  // what is not a value of its own: arguments, new.target, super, and rare literals
  meta() {
    const x = this.ctx, o = [];
    if (x.argsOk && !this.inField) o.push('arguments.length', 'arguments[0]', 'arguments[1]');
    if (x.metaOk) o.push('typeof new.target');
    if (x.superOk) o.push('super.m', 'typeof super.constructor', 'super.m()', 'super.toString()');
    const s = o.length && this.c.n(5) ? this.c.of(o) : this.c.of(['/a||b?c:d/', '`t`', 'typeof B', '/[/*]/', '`u`', 'typeof B', '`t`', '2n']);
    this.f('meta:' + s.split(/[. ]/)[0]);
    return s === '2n' || s[0] === '/' || s[0] === '`' || s.startsWith('arguments') ? { k: 'raw', s } : this.t({ k: 'raw', s });
  }
  expr(d) {
    this.use();
    const e = this.expr0(d);
    if (this.o.wildHints && this.c.n(24) === 23) { e.hint = 'next'; e.hintStyle = this.c.n(8); this.f('hint:wild'); }
    if (this.c.n(12) === 11) e.parens = 1 + this.c.n(2);
    return e;
  }
  expr0(d) {
    const c = this.c, x = this.ctx;
    if (d <= 0 || this.budget <= 0) return this.leaf();
    const k = c.w(this.weigh([
      [10, 'leaf'], [8, 't'], [9, 'cond'], [12, 'logical'], [4, 'bin'], [2, 'unary'], [6, 'call'], [4, 'iife'], [4, 'fn'], [4, 'obj'], [3, 'arr'],
      [3, 'assign'], [2, 'update'], [1, 'seq'], [2, 'tpl'], [1, 'tagged'], [2, 'member'], [1, 'optional'], [3, 'await'], [3, 'yield'], [1, 'new'], [1, 'strict'], [1, 'throwing'],
      [1, 'destr'],
    ]));
    switch (k) {
      case 'leaf': return this.leaf();
      case 't': return this.t(this.expr(d - 1));
      case 'cond': {
        this.f('cond'); const e = { k: 'cond', test: this.expr(d - 1), cons: this.expr(d - 1), alt: this.expr(d - 1) };
        if (this.o.hints) for (const q of ['cons', 'alt']) if (c.n(8) === 7) { e[q].hint = 'next'; e[q].hintStyle = c.n(8); e[q].parens = 0; this.f('hint:cond'); }
        return e;
      }
      case 'logical': return this.logicalExpr(d);
      case 'bin': { this.f('bin'); const e = { k: 'bin', op: c.of(['+', '-', '===', '<', '*', '!==', 'in', 'instanceof', '|', '**', ',']), l: this.expr(d - 1), r: null };
        e.r = e.op === 'in' && c.n(4) ? this.objLit(1) : e.op === 'instanceof' && c.n(4) ? { k: 'id', name: 'B' } : this.expr(d - 1);
        return e;
      }
      case 'unary': return { k: 'unary', op: c.of(['!', 'typeof ', '-', 'void ', '+', '~']), e: this.expr(d - 1) };
      case 'call': {
        const args = []; const n = c.n(3); const ref = c.n(2) ? this.varRef() : null;
        const f0 = ref && !this.banFn ? { k: 'id', name: ref.name } : this.banFn ? this.leaf() : this.fnArg();
        for (let i = 0; i < n; i++) { const a = this.expr(d - 1); args.push(c.n(10) === 9 ? { k: 'spread', e: { k: 'arr', els: [a] } } : a); }
        this.f('call');
        return { k: 'call', callee: { k: 'id', name: 'C' }, args: [f0, ...args] };
      }
      case 'iife': {
        if (this.banFn) return this.leaf(); this.f('iife');
        const fn = this.fnLike(c.n(2) ? 'expr' : 'arrow');
        const n = c.n(2), args = []; for (let i = 0; i < n; i++) args.push(this.expr(d - 1));
        return { k: 'call', callee: { ...fn, parens: 1 }, args, iife: true };
      }
      case 'fn': if (this.banFn) return this.leaf(); return this.fnExprLike();
      case 'obj': return this.objLit(d - 1);
      case 'arr': return this.arrLit(d - 1);
      case 'assign': {
        const ref = this.varRef(); if (!ref || !ref.mut) return this.t(this.expr(d - 1));
        this.f('assign');
        return { k: 'assign', op: c.of(['=', '=', '+=', '||=', '&&=', '??=']), l: { k: 'id', name: ref.name }, r: this.expr(d - 1) };
      }
      case 'destr': {
        const ref = this.varRef(); if (!ref || !ref.mut) return this.leaf();
        this.f('destrAssign');
        const l = c.n(2) ? { k: 'arrPat', els: [{ k: 'assignPat', left: { k: 'id', name: ref.name }, right: this.defaultValue() }], rest: null }
          : { k: 'objPat', props: [{ key: { k: 'ident', name: 'p' }, val: { k: 'assignPat', left: { k: 'id', name: ref.name }, right: this.defaultValue() } }], rest: null };
        return { k: 'assign', op: '=', l, r: l.k === 'arrPat' ? this.arrLit(1) : this.objLit(1), parens: 1 };
      }
      case 'update': { const ref = this.varRef(); if (!ref || !ref.mut) return this.leaf(); return { k: 'update', op: c.of(['++', '--']), pre: !!c.n(2), name: ref.name }; }
      case 'seq': return { k: 'seq', es: [this.expr(d - 1), this.expr(d - 1)] };
      case 'tpl': { this.f('tpl'); return { k: 'tpl', q: c.of([['', ''], ['a', 'b'], ['\n', '']]), es: [this.expr(d - 1)] }; }
      case 'tagged': { if (!this.o.tagged) return this.leaf(); this.f('tagged'); return { k: 'tagged', tag: !this.banFn && c.n(4) === 3 ? { ...this.fnLike('arrow'), parens: 1 } : { k: 'id', name: 'TAG' }, q: ['a', 'b'], es: [this.expr(d - 1)] }; }
      case 'member': { this.f('member'); return c.n(2) ? { k: 'member', o: this.objLit(1), p: c.of(['p', 'q', 'm']) } : { k: 'index', o: this.arrLit(1), i: this.expr(d - 1) }; }
      case 'optional': { this.f('optional'); let o = this.leaf(); if (o.k === 'id') o = { k: 'call', callee: { k: 'id', name: 'T' }, args: [o] }; return { k: 'optional', o, p: 'p', call: c.n(3) === 2 }; }
      case 'await': if (!x.async) return this.leaf(); this.f('await'); return { k: 'await', e: this.expr(d - 1) };
      case 'yield': if (!x.gen) return this.leaf(); this.f('yield'); return c.n(5) === 4 ? { k: 'yield', star: true, e: this.arrLit(1) } : { k: 'yield', star: false, e: c.n(4) ? this.expr(d - 1) : null };
      case 'new': { if (this.banFn || !this.classesOk()) return this.leaf(); this.f('new'); return { k: 'call', callee: { k: 'id', name: 'N' }, args: [this.classLike(null)] }; }
      case 'strict': { if (this.banFn || !this.o.strictProbe) return this.leaf(); this.f('strictProbe'); return this.t({ k: 'call', callee: { k: 'id', name: 'K' }, args: [{ k: 'fn', kind: 'expr', name: null, params: [], dirs: [], body: [{ k: 'return', e: { k: 'unary', op: 'typeof ', e: { k: 'raw', s: 'this' } } }] }] }); }
      case 'throwing': if (!x.inFn && !this.inTry && c.n(4)) return this.leaf(); this.f('throwing'); return { k: 'call', callee: { k: 'id', name: 'X' }, args: [{ k: 'num', v: this.tid++ }] };
    }
    throw new Error(k);
  }
  logicalExpr(d) {
    const c = this.c; this.f('logical');
    const op = c.of(['&&', '||', '??']);
    const side = () => { if (d > 1 && c.n(3) === 2) { const e = this.logicalExpr(d - 1); if (c.n(2)) e.parens = 1; this.f('nestedLogical'); return e; } return this.expr(d - 1); };
    const e = { k: 'logical', op, l: side(), r: side() };
    if (this.o.wildHints) for (const q of ['l', 'r']) if (c.n(3) === 2) { e[q].hint = 'next'; e[q].hintStyle = c.n(8); if (e[q].k !== 'logical') e[q].parens = 0; this.f('hint:wild'); }
    if (this.o.hints) for (const q of ['r']) if (e[q].k !== 'logical' && c.n(8) === 7) { e[q].hint = 'next'; e[q].hintStyle = c.n(8); this.f('hint:logical'); }
    return e;
  }
  objLit(d) {
    const c = this.c; const props = []; const n = c.n(4);
    for (let i = 0; i < n; i++) {
      const w = c.n(9);
      if (w < 4 || this.banFn) props.push({ k: 'kv', key: c.n(4) === 3 ? { k: 'computed', e: this.expr(d - 1) } : { k: 'ident', name: c.of(['p', 'q', 'm']) }, v: this.expr(d - 1) });
      else if (w === 4) { const key = this.propKey(false); props.push({ k: 'method', key, fn: this.fnLike('method') }); this.f('omethod'); }
      else if (w === 5 && this.o.getters) { const key = this.propKey(false); props.push({ k: 'getter', key, fn: this.fnLike('getter') }); this.f('ogetter'); }
      else if (w === 6) { const key = this.propKey(false); props.push({ k: 'setter', key, fn: this.fnLike('setter') }); this.f('osetter'); }
      else if (w === 7) { const v = this.varRef(); if (v && /^[A-Za-z]/.test(v.name)) props.push({ k: 'short', name: v.name }); }
      else props.push({ k: 'spread', e: this.expr(d - 1) });
    }
    for (const p of props) if (p.fn && this.o.hints && c.n(10) === 9) { p.hint = 'next'; p.hintStyle = c.n(8); this.f('hint:objmember'); }
    return { k: 'obj', props };
  }
  arrLit(d) {
    const c = this.c; const els = []; const n = c.n(4);
    for (let i = 0; i < n; i++) { const w = c.n(10); els.push(w === 9 ? null : w === 8 ? { k: 'spread', e: this.arrLit(0) } : this.expr(d - 1)); }
    return { k: 'arr', els };
  }
}

function containsFn(n) {
  if (!n || typeof n !== 'object') return false;
  if (Array.isArray(n)) return n.some(containsFn);
  if (n instanceof Map) return false;
  if (n.k === 'fn' || n.k === 'class') return true;
  for (const k in n) if (typeof n[k] === 'object' && containsFn(n[k])) return true;
  return false;
}

/** a function or class as the initialiser itself: counted ahead of its declaration, so that it keeps its name */
const isFnLike = e => e.k === 'fn' || e.k === 'class';
/** what is counted ahead of the declaration */
const isHoisted = e => isFnLike(e) || (e.k === 'tagged' && !e.parens);
// ---- size ----------------------------------------------------------------------
// Programs above are small. `scaleUp` adds one part of unusual size: hundreds of entries, wide or deep nodes, long names, lines and files.
const N = v => ({ k: 'num', v }), EX = e => ({ k: 'expr', e, semi: true }), LOG = (op, l, r) => ({ k: 'logical', op, l, r }), COND = (test, cons, alt) => ({ k: 'cond', test, cons, alt });
const FN = (kind, name, body, params = []) => ({ k: 'fn', kind, name, async: false, gen: false, dirs: [], params, rest: null, body });
const CALL = (callee, args = []) => ({ k: 'call', callee, args });
const ID = name => ({ k: 'id', name }), KEY = name => ({ k: 'ident', name }), BLOCK = body => ({ k: 'block', body }), IF = (test, cons, alt = null) => ({ k: 'if', test, cons: BLOCK([cons]), alt: alt && (alt.k === 'if' ? alt : BLOCK([alt])) });
const OPS = ['&&', '||', '??'];
const MANY = [
  i => EX(N(i)), i => EX(LOG(OPS[i % 3], N(i % 2), N(i))), i => EX(COND(N(i % 2), N(1), N(2))), i => EX(CALL({ ...FN('expr', null, [EX(N(i))]), parens: 1 })), i => IF(N(i % 2), EX(N(i))), i => ({ k: 'fnDecl', fn: FN('decl', 'w' + i, [EX(N(i))]) }),
  i => ({ k: 'var', dk: 'var', ds: [{ k: 'decl', pat: ID('w' + i), init: LOG(OPS[i % 3], N(i % 2), N(i)) }] }), i => ({ k: 'switch', disc: N(i % 2), cases: [{ k: 'case', test: N(0), body: [] }, { k: 'case', test: N(1), body: [EX(N(i))] }] }), i => ({ k: 'classDecl', cl: { k: 'class', name: 'W' + i, sup: null, members: [{ k: 'method', st: false, key: KEY('m' + i), fn: FN('method', null, [EX(N(i))]) }, { k: 'field', st: true, key: KEY('p'), v: N(i) }] } }),
];
const chain = (n, mk, end) => { let e = end; for (let i = n - 1; i >= 0; i--) e = mk(e, i); return e; };
const WIDE = [
  n => ({ k: 'switch', disc: N(n - 2), cases: Array.from({ length: n }, (_, i) => ({ k: 'case', test: i === n >> 1 ? null : N(i), body: [EX(N(i)), ...(i % 5 ? [] : [{ k: 'break', label: null }])] })) }),
  n => EX(chain(n, (e, i) => LOG(n % 2 ? '||' : '&&', e, N(i % 17 ? n % 2 ? 0 : 1 : 0)), N(n % 2 ? 0 : 1))),
  n => EX({ k: 'arr', els: Array.from({ length: n }, (_, i) => LOG('&&', N(i % 2), N(i))) }),
  n => EX(CALL({ ...FN('expr', null, [EX(N(1))], Array.from({ length: n }, (_, i) => ({ k: 'assignPat', left: ID('w' + i), right: N(i) }))), parens: 1 }, [N(1), N(2)])),
  n => chain(n, (e, i) => IF(N(i === n - 2 ? 1 : 0), EX(N(i)), e), EX(N(1))),
  n => ({ k: 'var', dk: 'var', ds: Array.from({ length: n }, (_, i) => ({ k: 'decl', pat: ID('w' + i), init: COND(N(i % 2), N(1), N(2)) })) }),
  n => EX({ k: 'obj', props: Array.from({ length: n }, (_, i) => ({ k: 'method', key: KEY('m' + i), fn: FN('method', null, [EX(N(i))]) })) }),
  n => EX(chain(n, (e, i) => ({ k: 'seq', es: [LOG('||', N(0), N(i)), e] }), N(0))),
  n => EX(chain(n, (e, i) => COND(N(i === n - 2 ? 1 : 0), N(i), e), N(0))),
];
const DEEPER = [
  n => chain(n, e => BLOCK([e]), EX(LOG('||', N(0), N(1)))), n => chain(n, e => IF(N(1), e), EX(COND(N(0), N(1), N(2)))), n => EX(chain(n, (e, i) => CALL({ ...FN('expr', null, [{ k: 'return', e }]), parens: 1 }), LOG('&&', N(0), N(1)))),
  n => chain(n, e => ({ k: 'try', block: BLOCK([e]), param: null, handler: BLOCK([]), fin: null }), EX(CALL(FN('expr', null, [EX(N(1))])))), n => EX(chain(n, e => ({ k: 'arr', els: [e] }), LOG('&&', N(0), N(1)))), n => EX(chain(n, e => ({ k: 'obj', props: [{ k: 'kv', key: KEY('p'), v: e }] }), FN('expr', 'w', [EX(N(1))]))),
  n => chain(n, (e, i) => ({ k: 'switch', disc: N(1), cases: [{ k: 'case', test: N(i % 9 ? 1 : 0), body: [e] }, { k: 'case', test: null, body: [] }] }), EX(N(1))), n => chain(n, (e, i) => ({ k: 'fnDecl', fn: FN('decl', 'w' + i, [e]) }), EX(LOG('||', N(0), N(1)))),
  n => chain(n, (e, i) => ({ k: 'classDecl', cl: { k: 'class', name: 'W' + i, sup: null, members: [{ k: 'staticBlock', block: BLOCK([e]) }] } }), EX(LOG('??', N(0), N(1)))), n => EX(chain(n, (e, i) => CALL(ID('C'), [FN('expr', null, [{ k: 'return', e }])]), N(1))),
  n => EX(chain(n, (e, i) => ({ k: 'assign', op: '=', l: ID('w0'), r: { ...LOG('||', N(0), { ...e, parens: 1 }), parens: 0 } }), N(1))), n => EX(chain(n, (e, i) => ({ k: 'unary', op: '!', e }), { ...LOG('&&', N(0), N(1)), parens: 1 })),
];
const HUGE = 2e9; // as the scale: more entries of a kind than 16 bits count
const longName = n => ('w' + 'abcdefghij'.repeat(n)).slice(0, n);
function scaleUp(p, s) {
  const c = { v: s, n(m) { const r = this.v % m; this.v = Math.floor(this.v / m); return r; } };
  const kind = c.n(8), seed = c.n(1 << 8);
  let part, what;
  switch (kind) {
    case 0: case 1: { const mk = MANY[seed % MANY.length], n = 257 + seed; what = 'many'; part = Array.from({ length: n }, (_, i) => mk(i)); break; }
    case 2: case 3: { what = 'wide'; part = [WIDE[seed % WIDE.length](20 + seed)]; break; }
    case 4: case 5: { what = 'deep'; part = [{ k: 'var', dk: 'var', ds: [{ k: 'decl', pat: ID('w0'), init: null }] }, DEEPER[seed % DEEPER.length](10 + (seed >> 1))]; break; }
    case 6: {
      const n = 50 + seed, a = longName(n), b = longName(n + 1); what = 'longNames';
      part = [{ k: 'fnDecl', fn: FN('decl', a, [EX(N(1))]) }, { k: 'fnDecl', fn: FN('decl', b, [EX(N(2))]) }, { k: 'classDecl', cl: { k: 'class', name: 'W', sup: null, members: [{ k: 'method', st: true, key: KEY(a), fn: FN('method', null, [EX(N(1))]) }, { k: 'getter', st: false, key: { k: 'strkey', v: b + ' é' }, fn: FN('getter', null, []) }] } }, EX(CALL(ID('C'), [FN('expr', b + 'x', [EX(N(3))])])), EX(CALL(ID(b)))];
      break;
    }
    default: {
      const n = [70000, 300, 66000, 140000][seed % 4], line = seed & 4;
      what = line ? 'longLine' : 'longFile';
      part = line ? [EX({ k: 'bin', op: '+', l: N(1), r: { k: 'str', v: 'x'.repeat(n) } })] : [EX({ k: 'tpl', q: ['\n'.repeat(n), ''], es: [N(1)] })];
      // on the same line as the long literal
      part[0] = EX({ k: 'seq', es: [part[0].e, LOG('||', N(0), { ...FN('expr', null, [EX(N(1))]), parens: 0 }), CALL(ID('C'), [FN('expr', 'w', [IF(N(0), EX(N(1)))])])] });
    }
  }
  if (s >= HUGE) { what = 'huge'; part = Array.from({ length: 66000 }, (_, i) => MANY[s - HUGE](i)); }
  p.body.splice(kind === 7 ? 0 : seed % (p.body.length + 1), 0, ...part);
  p.feat.set('scale:' + what, 1);
  return p;
}
function generate(arr, opts = {}) {
  const p = new Gen(new Choices(arr), opts).program();
  return opts.scale ? scaleUp(p, opts.scale) : p;
}
module.exports = { Choices, Gen, generate, scaleUp, HUGE, containsFn, isFnLike, isHoisted, DEFAULTS };
