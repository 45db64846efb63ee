from bugs1 import bug,B,V,O,PL,H
IV=V+'macros/instrumentation_visitor.rs'
CV=V+'visitors/coverage_visitor.rs'
HC=V+'macros/instrumentation_counter_helper.rs'
FD=V+'coverage_template/create_coverage_fn_decl.rs'
bug('constructor-counted-after-super','P05',[(IV,'''                        prepended_vec.splice(..0, crate::take_directives(&mut body.stmts));
                        prepended_vec.extend(body.stmts.take());
                        body.stmts = prepended_vec;
                    }
                    constructor.visit''','''                        prepended_vec.splice(..0, crate::take_directives(&mut body.stmts));
                        // keep the call of super in front
                        let is_super = |stmt: &Stmt| match stmt {
                            Stmt::Expr(ExprStmt { expr, .. }) => match &**expr {
                                Expr::Call(call) => matches!(call.callee, Callee::Super(_)),
                                _ => false,
                            },
                            _ => false,
                        };
                        if body.stmts.first().map_or(false, is_super) {
                            prepended_vec.insert(0, body.stmts.remove(0));
                        }
                        prepended_vec.extend(body.stmts.take());
                        body.stmts = prepended_vec;
                    }
                    constructor.visit''')],
"a constructor which starts with a call of super that throws",
"the call of the constructor is not counted",
H+"const src = 'class A { constructor(n) { if (n) throw 1; } }\\nclass B extends A { constructor(n) { super(n); } }\\nnew B(0); try { new B(1); } catch (e) {}';\nconst { cov } = run(instrument(src));\nconst k = Object.keys(cov.fnMap).find(k => cov.fnMap[k].decl.start.line === 2);\nassert.equal(cov.f[k], 2);")
bug('method-names-without-case','P12',[(IV,'''                    if let PropName::Ident(ident) = &method_prop.key {
                        let should_ignore_via_options = self
                            .instrument_options
                            .ignore_class_methods
                            .iter()
                            .any(|v| v.as_str() == &*ident.sym);
''','''                    if let PropName::Ident(ident) = &method_prop.key {
                        let should_ignore_via_options = self
                            .instrument_options
                            .ignore_class_methods
                            .iter()
                            .any(|v| v.eq_ignore_ascii_case(&ident.sym));
''')],
"an object with a method whose name differs from a listed one in case only",
"the method is not reported",
H+"const src = 'const o = { render() {}, Render() {}, rEnder() {} };';\nconst { cov } = run(instrument(src, { options: { ignoreClassMethods: ['render'] } }));\nassert.deepEqual(functions(cov), { Render: 0, rEnder: 0 });")
bug('counter-name-of-16-bits','P13',[(FD,'''    let var_name_hash = format!("cov_{}", s.finish());
''','''    let var_name_hash = format!("cov_{}", s.finish() as u16);
''')],
"hundreds of scripts which share the global scope",
"two of them share one counter function, the later one takes the counts of both",
H+"const out = instrumentAll(Array.from({ length: 1500 }, (_, i) => ['x', `/src/${i}.js`]));\nconst names = new Set(out.map(c => /cov_\\d+/.exec(c)[0]));\nassert.equal(names.size, out.length);")
bug('exported-declarator-without-init-stops','P08',[(CV,'''            let Some(init) = &declarator.init else {
                continue;
            };
''','''            let Some(init) = &declarator.init else {
                break;
            };
''')],
"an exported let or var with a function after a declarator without initializer",
"the initializer has no statement",
H+"const code = instrument('export let a, b = () => 1;\\n', { goal: 'module' });\nassert.match(code, /\\.s\\[1\\]\\+\\+/);")
bug('hint-in-shorthand-default','P10',[(IV,'''                    let value_ignored = crate::hint_comments::should_ignore(
                        &self.comments,
                        Some(&value.span()),
                    ) == Some(crate::hint_comments::IgnoreScope::Next);

                    if !value_ignored {
                        value.visit_mut_with(self);
                        self.replace_expr_with_branch_counter(&mut *value, branch);
                    }
''','''                    value.visit_mut_with(self);
                    self.replace_expr_with_branch_counter(&mut *value, branch);
''')],
"a hint in front of the default value of a shorthand property of a pattern",
"the hinted path is reported",
H+"const { cov } = run(instrument('var {\\n  a = /* istanbul ignore next */ 1\\n} = {};'));\nassert.equal(Object.keys(cov.branchMap).length, 0);")
bug('hint-of-private-field','P10',[(IV,'''            let (old, ignore_current) = self.on_enter(private_prop);
            match ignore_current {
                Some(crate::hint_comments::IgnoreScope::Next) => {}
                _ => {
                    if let Some(value) = &mut private_prop.value {
                        self.cover_statement(&mut *value);
                    }
''','''            let (old, ignore_current) = self.on_enter(private_prop);
            match ignore_current {
                Some(crate::hint_comments::IgnoreScope::Next) if !private_prop.is_static => {}
                _ => {
                    if let Some(value) = &mut private_prop.value {
                        self.cover_statement(&mut *value);
                    }
''')],
"a hint in front of a static private field",
"its initializer is reported",
H+"const { cov } = run(instrument('class A {\\n  a = 1;\\n  /* istanbul ignore next */\\n  static #b = 2;\\n}'));\nassert.equal(Object.keys(cov.statementMap).length, 1);")
bug('file-hint-without-reason','P11',[(V+'utils/hint_comments.rs','''    Lazy::new(|| Regexp::new(r"^\\s*istanbul\\s+ignore\\s+(file)(\\W|$)").unwrap());
''','''    Lazy::new(|| Regexp::new(r"^\\s*istanbul\\s+ignore\\s+(file)\\s*$").unwrap());
''')],
"a file hint with more text in the same comment",
"the file is instrumented",
H+"for (const t of ['/* istanbul ignore file */', '/* istanbul ignore file: generated */', '/* istanbul ignore file -- generated\\n */'])\n  assert.doesNotMatch(instrument(t + '\\nx();'), /cov_/, t);")
bug('coverage-variable-trimmed','P13',[(FD,'''            value: coverage_variable.into(),
''','''            value: coverage_variable.trim().into(),
''')],
"a coverage variable which starts or ends with white space",
"the coverage is registered under another name",
H+"assert.ok(run(instrument('var a = 1;', { options: { coverageVariable: ' cov ' } }), {}, ' cov ').cov);")
bug('debug-comment-closed-by-name','P15',[(FD,'''        let coverage_data_json_str = coverage_data_json_str.replace("*/", "*\\\\/");
''','''        let coverage_data_json_str = coverage_data_json_str.replacen("*/", "*\\\\/", 1);
''')],
"the debug comment of a file with two names that contain the end of a comment",
"the comment ends early, the output is not valid code",
H+"const code = instrument(\"var o = { 'a*/b'() {}, 'c*/d'() {} };\", { options: { debugInitialCoverageComment: true } });\nnew Function(code);")
bug('longer-branch-keeps-old-locations','P20',[(O+'file_coverage.rs','''                    pair.0.resize(item_hits.len(), 0);
                    pair.1.locations = item.locations.clone();
''','''                    pair.0.resize(item_hits.len(), 0);
''')],
"merging a branch with one which has the same first location and more paths",
"the paths added have counts and no locations",
rs='''use istanbul_oxide::*;
fn file(paths: u32) -> FileCoverage {
    let mut f = FileCoverage::from_file_path("a.js".into(), false);
    f.branch_map.insert(0, Branch::from_line(BranchType::Switch, 1, (0..paths).map(|i| Range::new(1 + i, 0, 1 + i, 5)).collect()));
    f.b.insert(0, (0..paths).collect());
    f
}
fn main() {
    let mut a = file(2);
    a.merge(&file(4));
    let k = *a.b.keys().next().unwrap();
    assert_eq!(a.b[&k].len(), 4);
    assert_eq!(a.branch_map[&k].locations.len(), 4);
}
''')
