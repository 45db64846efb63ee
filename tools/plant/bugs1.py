V='packages/swc-coverage-instrument/src/'
O='packages/istanbul-oxide/src/'
PL='packages/swc-plugin-coverage/src/lib.rs'
B=[]
def bug(id,prop,edits,needs,breaks,js=None,rs=None,plugin=None):
    import sys; B.append(dict(mod=sys._getframe(1).f_globals['__name__'],id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,js=js,rs=rs,plugin=plugin))
H="const { instrument, instrumentAll, run, context, text, statements, functions, vm, assert } = require('./lib.js');\n"

bug('arrow-assignment-body','P01',[(V+'macros/instrumentation_visitor.rs','''                        let ret = Stmt::Return(ReturnStmt {
                            span: span.clone(),
                            arg: Some(expr.take()),
                        });
                        stmts.push(ret);
''','''                        let ret = match &**expr {
                            // called for the effect only
                            Expr::Assign(..) | Expr::Update(..) => Stmt::Expr(ExprStmt {
                                span: span.clone(),
                                expr: expr.take(),
                            }),
                            _ => Stmt::Return(ReturnStmt {
                                span: span.clone(),
                                arg: Some(expr.take()),
                            }),
                        };
                        stmts.push(ret);
''')],
"an arrow function without a block whose body is an assignment or ++/--, and a caller which uses its value",
"the arrow function returns undefined once instrumented",
H+"const { c } = run(instrument('var n = 1; var next = () => n++; var set = v => n = v; var r = [next(), set(7), n];'));\nassert.deepEqual([...vm.runInContext('r', c)], [1, 7, 7]);")

bug('report-logic-identifier-operand','P07',[(V+'instrument/create_increase_true_expr.rs','''    let ret = Expr::Seq(SeqExpr {
        span: DUMMY_SP,
        exprs: vec![
            Box::new(assignment),
            Box::new(paren),
            Box::new(Expr::Member(member)),
        ],
    });
''','''    // reading an identifier has no effects, there is no need to read it back from the temporal member
    let value = match &assignment {
        Expr::Assign(AssignExpr { right, .. }) if right.is_ident() => right.clone(),
        _ => Box::new(Expr::Member(member)),
    };

    let ret = Expr::Seq(SeqExpr {
        span: DUMMY_SP,
        exprs: vec![Box::new(assignment), Box::new(paren), value],
    });
''')],
"reportLogic, and an operand which is an identifier whose reads can be observed (an accessor on the global object, or on the object of a with statement)",
"the operand is evaluated twice",
H+"let n = 0; const { c } = run(instrument('var r = flag || 5;', { options: { reportLogic: true } }), { get flag() { return n++; } });\nassert.equal(n, 1); assert.equal(vm.runInContext('r', c), 5);")

bug('global-variable-name-raw','P02',[(V+'coverage_template/create_coverage_fn_decl.rs','''        &IDENT_GCV,
        Expr::Lit(Lit::Str(Str {
            value: coverage_variable.into(),
            ..Str::dummy()
        })),
''','''        &IDENT_GCV,
        Expr::Lit(Lit::Str(Str {
            value: coverage_variable.into(),
            raw: Some(format!("\\"{}\\"", coverage_variable).into()),
            ..Str::dummy()
        })),
''')],
"a coverageVariable holding a quote, a backslash or a line break",
"the emitted code does not parse, or registers under another name",
H+"const v = 'co\"v\\\\n'; const { cov, error } = run(instrument('1;', { options: { coverageVariable: v } }), {}, v);\nassert.ok(!error); assert.equal(cov.s[0], 1);")

bug('label-body-in-block','P02',[(V+'macros/instrumentation_visitor.rs','''            labeled_stmt.visit_mut_children_with(self);

            self.on_exit(old);
''','''            let outer = std::mem::take(&mut self.before);
            labeled_stmt.visit_mut_children_with(self);
            let mut inner = std::mem::replace(&mut self.before, outer);

            // keep counters of the labeled statement next to it
            if !inner.is_empty() {
                inner.push(*labeled_stmt.body.take());
                labeled_stmt.body = Box::new(Stmt::Block(BlockStmt {
                    span: swc_core::common::DUMMY_SP,
                    stmts: inner,
                    ..Default::default()
                }));
            }

            self.on_exit(old);
''')],
"a labelled loop with a `continue` to its label",
"the emitted code is a syntax error (the label names a block, not the loop)",
H+"const { c, error } = run(instrument('var n = 0; a: for (var i = 0; i < 3; i++) { for (;;) { n++; continue a; } }'));\nassert.ok(!error, String(error)); assert.equal(vm.runInContext('n', c), 3);")

bug('ignored-operands-keep-truthiness','P03',[(V+'source_coverage/mod.rs','''                branches.swap_remove_entry(key);
                if let Some(branches_t) = branches_t {
                    branches_t.swap_remove_entry(key);
                }
                false
''','''                let known = branches.swap_remove_entry(key).is_some();
                if !known {
                    if let Some(branches_t) = branches_t {
                        branches_t.swap_remove_entry(key);
                    }
                }
                false
''')],
"reportLogic, and a logical expression whose operands are all ignored by hints",
"the coverage data holds truthiness counts of a branch which is not in its branch map",
H+"const { cov } = run(instrument('var x = 0; var y = (/* istanbul ignore next */ x && /* istanbul ignore next */ 1) && /* istanbul ignore next */ 2; var z = x || 2;', { options: { reportLogic: true } }));\nassert.deepEqual(Object.keys(cov.bT), Object.keys(cov.branchMap)); assert.equal(Object.keys(cov.b).length, 1);")

bug('else-if-counted-up-front','P04',[(V+'macros/instrumentation_visitor.rs','''                            stmt_body.visit_mut_with(&mut visitor);
                            stmts.extend(visitor.before.drain(..));

                            stmts.push(stmt_body);

                            BlockStmt {
''','''                            stmt_body.visit_mut_with(&mut visitor);
                            match &stmt_body {
                                // keep `else if` chains flat
                                Stmt::If(..) => self.before.extend(visitor.before.drain(..)),
                                _ => stmts.extend(visitor.before.drain(..)),
                            }

                            stmts.push(stmt_body);

                            BlockStmt {
''')],
"an `else if` whose first condition holds",
"the second if statement is counted as executed whenever the chain is reached",
H+"const src = 'var a = 1;\\nif (a) { a = 2; } else if (a === 3) a = 4;'; const { cov } = run(instrument(src));\nassert.equal(statements(src, cov)['if (a === 3) a = 4;'], 0);")

bug('with-body-counted-before','P04',[(V+'macros/instrumentation_visitor.rs','''                        with_stmt.body.visit_mut_with(&mut visitor);
                        let mut new_stmts = vec![];
                        new_stmts.extend(visitor.before.drain(..));
                        new_stmts.push(*with_stmt.body.take());
''','''                        with_stmt.body.visit_mut_with(&mut visitor);
                        let mut new_stmts = vec![];
                        // counters should not look up anything from the object
                        self.before.extend(visitor.before.drain(..));
                        new_stmts.push(*with_stmt.body.take());
''')],
"a with statement without a block whose object expression throws (or is null)",
"the statement in its body is counted although it never ran",
H+"const src = 'var n = 0;\\ntry { with (null) n = 1; } catch (e) {}'; const { cov } = run(instrument(src));\nassert.equal(statements(src, cov)['n = 1;'], 0);")

bug('user-counter-taken-for-own','P08',[(V+'macros/instrumentation_counter_helper.rs','''                                if let Expr::Ident(ident) = &**expr {
                                    if ident == &self.cov_fn_ident {
                                        return true;
                                    }
                                }
''','''                                if let Expr::Ident(ident) = &**expr {
                                    if ident.span.is_dummy() || ident.sym.starts_with("cov") {
                                        return true;
                                    }
                                }
''')],
"a statement of the source like `coverageOf().hits[0]++`: an update of a member of a member of a call of something starting with cov",
"the statement is taken for an injected counter and has no entry",
H+"const src = 'var store = { hits: [0] }; function covered() { return store; }\\ncovered().hits[0]++;'; const { cov } = run(instrument(src));\nassert.equal(statements(src, cov)['covered().hits[0]++;'], 1);")

bug('superclass-not-visited','P08',[(V+'macros/instrumentation_visitor.rs','''                    //self.mark_prepend_stmt_counter(&class_decl.class.span);
                    class_decl.visit_mut_children_with(self);
''','''                    //self.mark_prepend_stmt_counter(&class_decl.class.span);
                    class_decl.class.body.visit_mut_with(self);
''')],
"a class declaration which extends an expression holding functions or branches",
"functions and branches in the heritage expression have no entry",
H+"const src = 'class A {}\\nclass B extends mix(function named() { return A; }) {}\\nfunction mix(f) { return f(); }'; const { cov } = run(instrument(src));\nassert.equal(functions(cov).named, 1);")

bug('empty-case-not-counted','P06',[(V+'visitors/switch_case_visitor.rs','''                let mut new_stmts = vec![expr];
                new_stmts.extend(switch_case.cons.drain(..));

                switch_case.cons = new_stmts;
''','''                // there is nothing to run in the case which falls through right away
                if !switch_case.cons.is_empty() || switch_case.test.is_none() {
                    let mut new_stmts = vec![expr];
                    new_stmts.extend(switch_case.cons.drain(..));

                    switch_case.cons = new_stmts;
                }
''')],
"a switch case without statements of its own",
"the path of the case stays at zero when the case is entered",
H+"const { cov } = run(instrument('switch (1) { case 1: case 2: break; default: }'));\nassert.deepEqual([...cov.b[0]], [1, 1, 0]);")

bug('setter-counter-last','P05',[(V+'macros/instrumentation_visitor.rs','''                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
                                span: swc_core::common::DUMMY_SP,
                                expr: Box::new(b),
                            })];
                            prepended_vec.splice(..0, crate::take_directives(&mut body.stmts));
                            prepended_vec.extend(body.stmts.take());
                            body.stmts = prepended_vec;
                        }
                        setter_prop.visit_mut_children_with(self);
''','''                            body.stmts.push(Stmt::Expr(ExprStmt {
                                span: swc_core::common::DUMMY_SP,
                                expr: Box::new(b),
                            }));
                        }
                        setter_prop.visit_mut_children_with(self);
''')],
"an object setter with a string, numeric or computed key which returns early or throws",
"calls which do not reach the end of the setter are not counted",
H+"const { cov } = run(instrument('var o = { set \"a b\"(v) { if (v) return; } }; o[\"a b\"] = 1; o[\"a b\"] = 0;'));\nassert.equal(functions(cov)['a b'], 2);")

bug('getter-location-of-property','P09',[(V+'macros/instrumentation_visitor.rs','''                        if let Some(body) = &mut getter_prop.body {
                            let body_span = body.span;''','''                        if let Some(body) = &mut getter_prop.body {
                            let body_span = getter_prop.span;''')],
"an object getter with a string, numeric or computed key",
"the location of the function is the whole property instead of its body",
H+"const src = 'var o = { get \\'a b\\'() { return 1; } };'; const { cov } = run(instrument(src));\nassert.equal(text(src, cov.fnMap[0].loc), '{ return 1; }');")

bug('display-columns','P09',[(V+'utils/lookup_range.rs','span_lo_loc.col.0 as u32,','span_lo_loc.col_display as u32,'),(V+'utils/lookup_range.rs','span_hi_loc.col.0 as u32,','span_hi_loc.col_display as u32,')],
"a wide, combining or zero-width character before a construct on its line",
"columns are display columns, off by the width of the characters before",
H+"const src = 'var s = \"日本\"; s = 1;'; const { cov } = run(instrument(src));\nassert.ok('s = 1;' in statements(src, cov));")

bug('only-last-comment-is-a-hint','P10',[(V+'utils/hint_comments.rs','''            let l_value = l.iter().find_map(|c| {
                COMMENT_RE''','''            // the comment right before the node
            let l_value = l.last().and_then(|c| {
                COMMENT_RE''')],
"a hint followed by another comment before the code",
"the hint has no effect",
H+"const { cov } = run(instrument('/* istanbul ignore next */ /* explains why */\\nif (0) { 1; }\\nvar a = 1;'));\nassert.equal(Object.keys(cov.branchMap).length, 0);")

bug('if-hint-reaches-nested','P10',[(V+'macros/create_instrumentation_visitor.rs','''                        self.should_ignore = crate::hint_comments::should_ignore(&self.comments, span);
                        self.should_ignore
                    }
                };

                (old, ret)''','''                        // node without own hint stays in the scope it is in
                        self.should_ignore =
                            crate::hint_comments::should_ignore(&self.comments, span).or(old);
                        self.should_ignore
                    }
                };

                (old, ret)''')],
"an `ignore if` or `ignore else` hint on an if which contains another if",
"the nested if loses the same side",
H+"const { cov } = run(instrument('/* istanbul ignore else */\\nif (1) { if (0) { 1; } else { 2; } }'));\nassert.deepEqual(Object.values(cov.b).map(x => x.length), [1, 2]);")

bug('file-hint-only-last-comment','P11',[(V+'utils/hint_comments.rs','''            comments
                .iter()
                .any(|comment| COMMENT_FILE_REGEX.is_match(&comment.text))
''','''            comments
                .last()
                .is_some_and(|comment| COMMENT_FILE_REGEX.is_match(&comment.text))
''')],
"an `ignore file` hint followed by another opening comment (a licence header)",
"the file is instrumented",
H+"assert.ok(!instrument('/* istanbul ignore file */\\n/* Copyright */\\nvar a = 1;').includes('cov_'));")

bug('getter-ignored-by-prefix','P12',[(V+'macros/instrumentation_visitor.rs','''                    if let PropName::Ident(ident) = &getter_prop.key {
                        let should_ignore_via_options = self
                            .instrument_options
                            .ignore_class_methods
                            .iter()
                            .any(|v| v.as_str() == &*ident.sym);
''','''                    if let PropName::Ident(ident) = &getter_prop.key {
                        let should_ignore_via_options = self
                            .instrument_options
                            .ignore_class_methods
                            .iter()
                            .any(|v| ident.sym.starts_with(v.as_str()));
''')],
"ignoreClassMethods with a name which is a prefix of the name of an object getter",
"the getter is not instrumented although its name is not listed",
H+"const { cov } = run(instrument('var o = { get toStringTag() { return 1; } }; o.toStringTag;', { options: { ignoreClassMethods: ['toString'] } }));\nassert.equal(functions(cov).toStringTag, 1);")

bug('counter-named-by-basename','P13',[(V+'coverage_template/create_coverage_fn_decl.rs','''    value.hash(&mut s);
    let var_name_hash''','''    // stable across machines: directories the project is checked out into do not matter
    value.rsplit('/').next().unwrap_or(value).hash(&mut s);
    let var_name_hash''')],
"two scripts with the same base name in different directories evaluated in one scope",
"counters of one file go into the entry of the other",
H+"const [a, b] = instrumentAll([['function fa() { return 1; }', '/x/index.js'], ['function fb() { return 2; }', '/y/index.js']]);\nconst c = context(); vm.runInContext(a, c); vm.runInContext(b, c); vm.runInContext('fa(); fa(); fb();', c);\nconst cov = vm.runInContext('__coverage__', c); assert.equal(cov['/x/index.js'].f[0], 2); assert.equal(cov['/y/index.js'].f[0], 1);")

bug('hint-cache-across-files','P14',[(V+'utils/hint_comments.rs','''    let comments = lookup_hint_comments(comments, span);

    if let Some(comments) = comments.as_deref() {
        match comments {
            "next" => Some(IgnoreScope::Next),
            "if" => Some(IgnoreScope::If),
            "else" => Some(IgnoreScope::Else),
            _ => None,
        }
    } else {
        None
    }
''','''    // the same node is looked up by several visitors
    thread_local! {
        static LAST: std::cell::Cell<Option<(Span, Option<IgnoreScope>)>> = const { std::cell::Cell::new(None) };
    }
    if let (Some((last, scope)), Some(span)) = (LAST.get(), span) {
        if last == *span {
            return scope;
        }
    }

    let comments = lookup_hint_comments(comments, span);

    let scope = if let Some(comments) = comments.as_deref() {
        match comments {
            "next" => Some(IgnoreScope::Next),
            "if" => Some(IgnoreScope::If),
            "else" => Some(IgnoreScope::Else),
            _ => None,
        }
    } else {
        None
    };
    LAST.set(span.map(|span| (*span, scope)));
    scope
''')],
"two files instrumented one after another by one process, the last node looked up in the first having the range of the first node looked up in the second, and a hint in one of them only",
"a hint of the previous file decides about the next one",
H+"const first = '/* istanbul ignore next */ f();', second = '/* comment in the middle*/ f();';\nconst [, b] = instrumentAll([[first, '/a.js'], [second, '/b.js']]); const alone = instrument(second, { filename: '/b.js' });\nassert.equal(b, alone);")

bug('hash-of-prefix','P15',[(V+'coverage_template/create_coverage_data_object.rs','''    coverage_str.hash(&mut hasher);
''','''    // head of the data is enough to tell files apart
    coverage_str
        .get(..4096)
        .unwrap_or(&coverage_str)
        .hash(&mut hasher);
''')],
"two versions of a file which differ late, with more than 4 KB of coverage data",
"different coverage data carry the same hash",
H+"const src = n => 'f();\\n'.repeat(n) + 'function f() {}'; const h = n => run(instrument(src(n))).cov.hash;\nassert.notEqual(h(200), h(201));")

bug('partial-log-options','P16',[(V+'options/instrument_options.rs','''#[serde(rename_all = "camelCase", default)]
pub struct InstrumentLogOptions {''','''#[serde(rename_all = "camelCase")]
pub struct InstrumentLogOptions {''')],
"an instrumentLog object with only some of its fields",
"the options are rejected as a whole (the plugin then falls back to the defaults)",
H+"const { cov } = run(instrument('1;', { options: { coverageVariable: 'cv', instrumentLog: { level: 'error' } } }), {}, 'cv');\nassert.equal(cov.s[0], 1);")
