from bugs1 import bug,B,V,O,PL,H
from bugs2 import U
IV=V+'macros/instrumentation_visitor.rs'
bug('unbraced-with-body-counter-lost','P03',[(IV,'''                        let mut new_stmts = vec![];
                        new_stmts.extend(visitor.before.drain(..));
                        new_stmts.push(*with_stmt.body.take());
''','''                        let new_stmts = vec![*with_stmt.body.take()];
''')],
"a with statement whose body is a single statement without braces",
"the counter of the body is dropped while its entry is kept, and stays at zero",
H+"const { cov } = run(instrument('with ({ n: 1 }) n++;'));\nassert.deepEqual(statements('with ({ n: 1 }) n++;', cov), { 'with ({ n: 1 }) n++;': 1, 'n++;': 1 });")
bug('static-field-counter-prepended','P04',[(IV,'''                    if let Some(value) = &mut class_prop.value {
                        self.cover_statement(&mut *value);
                    }
''','''                    if let Some(value) = &mut class_prop.value {
                        if class_prop.is_static {
                            // evaluated once, with the class
                            self.mark_prepend_stmt_counter(&value.span());
                        } else {
                            self.cover_statement(&mut *value);
                        }
                    }
''')],
"a static field of a class whose evaluation is conditional, or stops with an exception before the field",
"the value of the field is counted although it was not evaluated",
H+"const src = 'var C = 0 || class { static a = boom(); static b = 1; };';\nconst { cov } = run(instrument(src));\nassert.equal(statements(src, cov)['1'], 0);")
bug('empty-function-not-counted','P05',[(V+'macros/instrumentation_counter_helper.rs','''                Some(blockstmt) => {
                    let b = crate::create_increase_counter_expr(
''','''                // nothing to run
                Some(blockstmt) if blockstmt.stmts.is_empty() => {}
                Some(blockstmt) => {
                    let b = crate::create_increase_counter_expr(
''')],
"calls of a function with an empty body",
"its calls are not counted",
H+"const { cov } = run(instrument('function noop() {} noop(); noop();'));\nassert.deepEqual(functions(cov), { noop: 2 });")
bug('empty-else-has-no-path','P06',[(IV,'''                        if let Some(alt) = &mut if_stmt.alt {
                            wrap_with_counter(alt);
                        } else {
''','''                        if let Some(alt) = &mut if_stmt.alt {
                            if !alt.is_empty() {
                                wrap_with_counter(alt);
                            }
                        } else {
''')],
"an if statement with an empty statement as its else (`else;`)",
"the branch has one path only, and not taking it is not counted",
H+"const { cov } = run(instrument('if (0) x(); else;'));\nassert.deepEqual([...cov.b[0]], [0, 1]);")
bug('plain-object-by-constructor','P07',[(V+'instrument/create_increase_true_expr.rs','''                op: BinaryOp::NotEqEq,
                left: Box::new(Expr::Call(CallExpr {
                    callee: Callee::Expr(Box::new(Expr::Member(MemberExpr {
                        obj: Box::new(Expr::Ident(Ident {
                            sym: "Object".into(),
                            ..Ident::dummy()
                        })),
                        prop: MemberProp::Ident(IdentName {
                            sym: "getPrototypeOf".into(),
                            ..IdentName::dummy()
                        }),
                        ..MemberExpr::dummy()
                    }))),
                    args: vec![ExprOrSpread {
                        spread: None,
                        expr: Box::new(member.clone()),
                    }],
                    ..CallExpr::dummy()
                })),
                right: Box::new(Expr::Member(MemberExpr {
                    obj: Box::new(Expr::Ident(Ident {
                        sym: "Object".into(),
                        ..Ident::dummy()
                    })),
                    prop: MemberProp::Ident(IdentName {
                        sym: "prototype".into(),
                        ..IdentName::dummy()
                    }),
                    ..MemberExpr::dummy()
                })),
''','''                op: BinaryOp::NotEqEq,
                left: Box::new(Expr::Member(MemberExpr {
                    obj: Box::new(member.clone()),
                    prop: MemberProp::Ident(IdentName {
                        sym: "constructor".into(),
                        ..IdentName::dummy()
                    }),
                    ..MemberExpr::dummy()
                })),
                right: Box::new(Expr::Ident(Ident {
                    sym: "Object".into(),
                    ..Ident::dummy()
                })),
''')],
"reportLogic, and an operand whose value is an object without own properties which inherits from a plain object (`Object.create(options)`), or whose `constructor` is an accessor",
"it is taken for an empty plain object and not counted as truthy",
H+"const { cov } = run(instrument('Object.create({ a: 1 }) || 0;', { options: { reportLogic: true } }));\nassert.equal(cov.bT[0][0], 1);")
bug('tagged-template-expressions-not-visited','P08',[(IV,'''                    tagged_tpl.visit_mut_children_with(self);
''','''                    tagged_tpl.tag.visit_mut_with(self);
''')],
"a function, a conditional or a logical expression within a placeholder of a tagged template",
"it is missing from the coverage data",
H+"const { cov } = run(instrument('var t = () => 1; t`a${function inner() { return 1 ? 2 : 3; }}b`;'));\nassert.ok('inner' in functions(cov)); assert.equal(Object.keys(cov.branchMap).length, 1);")
bug('range-cache-across-files','P09',[(V+'utils/lookup_range.rs','''    let span_hi_loc = source_map.lookup_char_pos(span.hi);
    let span_lo_loc = source_map.lookup_char_pos(span.lo);

    Range::new(
        span_lo_loc.line as u32,
        // TODO: swc_plugin::source_map::Pos to use to_u32() instead
        span_lo_loc.col.0 as u32,
        span_hi_loc.line as u32,
        span_hi_loc.col.0 as u32,
    )
}
''','''    // looking up positions is a call to the host, and same spans are asked for again and again
    thread_local! {
        static LAST: std::cell::Cell<Option<(Span, Range)>> = const { std::cell::Cell::new(None) };
    }

    if let Some((last, range)) = LAST.get() {
        if last == *span {
            return range;
        }
    }

    let span_hi_loc = source_map.lookup_char_pos(span.hi);
    let span_lo_loc = source_map.lookup_char_pos(span.lo);

    let range = Range::new(
        span_lo_loc.line as u32,
        // TODO: swc_plugin::source_map::Pos to use to_u32() instead
        span_lo_loc.col.0 as u32,
        span_hi_loc.line as u32,
        span_hi_loc.col.0 as u32,
    );
    LAST.set(Some((*span, range)));
    range
}
''')],
"two files instrumented one after the other, where the first construct of the second has the byte range of the last construct of the first, but on another line",
"the location is that of the first file",
H+"const codes = instrumentAll([['a;\\nb;', '/src/b.js'], [' \\n\\nb;', '/src/a.js']]);\nconst { cov } = run(codes[1], { b: 1 });\nassert.deepEqual({ ...cov.statementMap[0].start }, { line: 3, column: 0 });")
bug('jsdoc-comment-is-a-hint','P10',[(V+'utils/hint_comments.rs','''r"^\\s*istanbul\\s+ignore\\s+(if|else|next)(\\W|$)"''','''r"^[\\s*]*istanbul\\s+ignore\\s+(if|else|next)(\\W|$)"''')],
"a documentation comment (`/** ... */`) or boxed comment which begins with the words of a hint",
"the code after it is taken out of the report though the comment is not a hint",
H+"const { cov } = run(instrument('/** istanbul ignore next: not here */\\nfunction f() {} f();'));\nassert.deepEqual(functions(cov), { f: 1 });")
bug('file-hint-prefix','P11',[(V+'utils/hint_comments.rs','''r"^\\s*istanbul\\s+ignore\\s+(file)(\\W|$)"''','''r"^\\s*istanbul\\s+ignore\\s+(file)"''')],
"an opening comment which goes on with a longer word, like `istanbul ignore files matching ...`",
"the file is not instrumented",
H+"const { cov } = run(instrument('/* istanbul ignore files in dist */\\nvar a = 1;'));\nassert.ok(cov);")
bug('ignored-method-children-visited','P12',[(IV,'''                            self.create_fn_instrumentation(
                                &Some(&ident.clone().into()),
                                &mut method_prop.function,
                            );
                            method_prop.visit_mut_children_with(self);
                        }
''','''                            self.create_fn_instrumentation(
                                &Some(&ident.clone().into()),
                                &mut method_prop.function,
                            );
                        }
                        method_prop.visit_mut_children_with(self);
''')],
"ignoreClassMethods naming a method of an object literal which contains statements, functions or branches",
"what is in the ignored method is still reported",
H+"const { cov } = run(instrument('var o = { skip() { return 1; } };', { options: { ignoreClassMethods: ['skip'] } }));\nassert.equal(Object.keys(cov.s).length, 1);")
bug('changed-file-keeps-old-entry','P13',[(V+'coverage_template/create_coverage_fn_decl.rs','''if (!$coverage[$path] || $coverage[$path].$hash !== $hash) {''','''if (!$coverage[$path] || ($hash, !$coverage[$path].s)) {''')],
"a file evaluated again after it was changed, with the coverage of the previous version still registered",
"counts of the new version are added to the entry of the old one",
H+"const [a, b] = instrumentAll([['x = 1;', '/src/a.js'], ['x = 1; y = 2;', '/src/a.js']]);\nconst { c } = run(a); vm.runInContext(b, c);\nconst cov = vm.runInContext('__coverage__', c)['/src/a.js'];\nassert.equal(Object.keys(cov.statementMap).length, 2); assert.equal(cov.s[1], 1);")
bug('empty-source-root-dropped','P15',[(V+'coverage_template/create_coverage_data_object.rs','''        if let Some(source_root) = &input_source_map.source_root {
''','''        if let Some(source_root) = input_source_map.source_root.as_ref().filter(|v| !v.is_empty()) {
''')],
"an input source map with an empty sourceRoot, as TypeScript writes it",
"the source map embedded in the code lacks it and differs from the one in the debug comment",
H+"const { cov } = run(instrument('1;', { options: { inputSourceMap: { version: 3, sourceRoot: '', sources: ['a'], names: [], mappings: 'AAAA' } } }));\nassert.equal(cov.inputSourceMap.sourceRoot, '');")
bug('source-map-extension-rejected','P16',[(O+'source_map.rs','''#[serde(rename_all = "camelCase", default)]
''','''#[serde(rename_all = "camelCase", default, deny_unknown_fields)]
''')],
"options with an input source map which has an extension field (`ignoreList`, `x_facebook_sources`)",
"the options are rejected, and all of them fall back to the defaults",
rs='''fn main() {
    let map: Result<istanbul_oxide::SourceMap, _> = serde_json::from_str(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA","ignoreList":[0]}"#);
    assert!(map.is_ok(), "{map:?}");
}
''')
bug('unparsable-glob-skipped-alone','P17',[(PL,'''            .map(|s| normalize_path(s))
            .collect::<Vec<_>>();
''','''            .map(|s| normalize_path(s))
            .filter(|s| wax::Glob::new(s).is_ok())
            .collect::<Vec<_>>();
''')],
"a list of globs in which one cannot be parsed and another matches the filename",
"the file is left out of the coverage instead of ignoring the list",
plugin="badglob")
bug('plugin-skips-empty-files','P18',[(PL,'''    initialize_instrumentation_log(&instrument_options.instrument_log);

    let visitor''','''    // nothing to instrument
    let empty = match &program {
        Program::Module(module) => module.body.is_empty(),
        Program::Script(script) => script.body.is_empty(),
    };
    if empty {
        return program;
    }

    initialize_instrumentation_log(&instrument_options.instrument_log);

    let visitor''')],
"a file which is empty, or holds comments only",
"it does not register in the coverage",
plugin="empty")
bug('line-hits-first-not-largest','P23',[(O+'file_coverage.rs',"""                Some(pre_val) if pre_val < count => {""","""                Some(0) => {""")],
"a line on which three statements start, or two which were both executed, the later one more often",
"the line is reported with the hits of its first executed statement instead of the largest",
rs=U+"""fn main() {
    let f = file(r#"{"path":"a","statementMap":{"0":{"start":{"line":1,"column":0},"end":{"line":1,"column":1}},"1":{"start":{"line":1,"column":2},"end":{"line":1,"column":4}}},"fnMap":{},"branchMap":{},"s":{"0":1,"1":5},"f":{},"b":{}}"#);
    assert_eq!(f.get_line_coverage()[&1], 5);
}
""")
bug('no-truthy-total-without-branches','P24',[(O+'file_coverage.rs','''        let branches_true = if let Some(branches_true) = &self.b_t {
            Some''','''        let branches_true = if let Some(branches_true) = self.b_t.as_ref().filter(|v| !v.is_empty()) {
            Some''')],
"coverage with logical reporting on, of a file without logical expressions",
"the summary has no totals of truthy branch paths",
rs=U+'''fn main() {
    let f = file(r#"{"path":"a","statementMap":{},"fnMap":{},"branchMap":{},"s":{},"f":{},"b":{},"bT":{}}"#);
    let (_, branches_true) = verif_hooks::summary_parts(&f.to_summary());
    assert_eq!(branches_true.map(|t| t.pct), Some(verif_hooks::CoveragePercentage::Value(100.0)));
}
''')
bug('from-iter-overwrites','P25',[(O+'coverage_map.rs','''            ret.add_coverage_for_file(coverage)
        }
''','''            ret.inner.insert(coverage.path.clone(), coverage.clone());
        }
''')],
"building a map from several coverage objects of the same file",
"only the last one is kept instead of their merge",
rs=U+'''fn main() {
    let f = file(r#"{"path":"a","statementMap":{"0":{"start":{"line":1,"column":0},"end":{"line":1,"column":1}}},"fnMap":{},"branchMap":{},"s":{"0":1},"f":{},"b":{}}"#);
    let m = CoverageMap::from_iter([&f, &f]);
    assert_eq!(json(m.get_coverage_for_file("a").unwrap())["s"]["0"], 2);
}
''')
bug('summary-skips-stubs','P26',[(O+'coverage_map.rs','''        for coverage in self.inner.values() {
            ret.merge''','''        for coverage in self.inner.values().filter(|coverage| !coverage.all) {
            ret.merge''')],
"a map with the stub of a file which was never loaded",
"the statements, functions and branches of the file are missing from the totals, and the percentage is too high",
rs=U+'''fn main() {
    let f = file(r#"{"all":true,"path":"a","statementMap":{"0":{"start":{"line":1,"column":0},"end":{"line":1,"column":1}}},"fnMap":{},"branchMap":{},"s":{"0":0},"f":{},"b":{}}"#);
    let (parts, _) = verif_hooks::summary_parts(&CoverageMap::from_iter([&f]).get_coverage_summary());
    assert_eq!(parts[1].total, 1);
}
''')
bug('empty-names-not-written','P27',[(O+'source_map.rs','''    pub names: Vec<String>,
''','''    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub names: Vec<String>,
''')],
"coverage with an input source map without names",
"the source map is written without the `names` source map readers require",
rs=U+'''fn main() {
    let f = file(r#"{"path":"a","statementMap":{},"fnMap":{},"branchMap":{},"s":{},"f":{},"b":{},"inputSourceMap":{"version":3,"sources":["x"],"names":[],"mappings":"AAAA"}}"#);
    assert!(json(&f)["inputSourceMap"]["names"].is_array());
}
''')
bug('reset-clears-stub-mark','P28',[(O+'file_coverage.rs','''    pub fn reset_hits(&mut self) {
''','''    pub fn reset_hits(&mut self) {
        self.all = false;

''')],
"resetting a stub of a never loaded file",
"the mark of the stub is lost",
rs=U+'''fn main() {
    let mut f = file(r#"{"all":true,"path":"a","statementMap":{},"fnMap":{},"branchMap":{},"s":{},"f":{},"b":{}}"#);
    f.reset_hits();
    assert!(f.all);
}
''')
bug('no-statements-taken-for-empty','P22',[(O+'file_coverage.rs',"""        if self.all {
            *self = coverage.clone();""","""        if self.all || self.s.is_empty() {
            *self = coverage.clone();""")],
"coverage with functions or branches but without statements, as the first of the objects merged",
"its entries and counts are lost, while they are kept when it comes last",
rs=U+"""fn main() {
    let f = |l: u32, n: u32| file(&format!(r#"{{"path":"a","statementMap":{{}},"fnMap":{{"0":{{"name":"f","decl":{{"start":{{"line":{l},"column":0}},"end":{{"line":{l},"column":1}}}},"loc":{{"start":{{"line":{l},"column":2}},"end":{{"line":{l},"column":4}}}},"line":{l}}}}},"branchMap":{{}},"s":{{}},"f":{{"0":{n}}},"b":{{}}}}"#));
    let mut a = f(1, 2);
    a.merge(&f(2, 3));
    assert_eq!(json(&a)["f"], serde_json::json!({"0": 2, "1": 3}));
}
""")
