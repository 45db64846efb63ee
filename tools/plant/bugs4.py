from bugs1 import bug,B,V,O,PL,H
from bugs2 import U
IV=V+'macros/instrumentation_visitor.rs'
CV=V+'visitors/coverage_visitor.rs'
bug('loop-body-without-position','P19',[(V+'macros/visit_mut_for_like.rs','''                let body = if let Stmt::Block(body) = body {
                    body
                } else {''','''                let body = if let Stmt::Block(body) = body {
                    BlockStmt {
                        span: body.span.shrink_to_lo(),
                        ..body
                    }
                } else {''')],
"a comment after the last statement of the body of a loop",
"the comment is not emitted",
H+"assert.match(instrument('for (var i = 0; i < 2; i++) {\\n  x(i);\\n  // the end\\n}', { options: {} }), /the end/);")
bug('function-body-without-position','P19',[(V+'macros/instrumentation_counter_helper.rs','''                    prepended_vec.extend(blockstmt.stmts.take());
                    blockstmt.stmts = prepended_vec;
''','''                    prepended_vec.extend(blockstmt.stmts.take());
                    *blockstmt = BlockStmt {
                        span: Span::new(body_span.lo, body_span.lo),
                        stmts: prepended_vec,
                        ..Default::default()
                    };
''')],
"a comment after the last statement of a function, or a map of the emitted code back to the source",
"the comment is not emitted",
H+"assert.match(instrument('function f() {\\n  x();\\n  // the end\\n}'), /the end/);")
bug('file-hint-takes-comments','P19',[(V+'utils/hint_comments.rs','''        comments.get_trailing(pos.hi),
''','''        comments.take_trailing(pos.hi),
''')],
"a comment after the last statement of the file",
"the comment is not emitted",
H+"assert.match(instrument('x();\\n// the end\\n'), /the end/);")
bug('template-path-of-latest-file','P14',[(CV,'''create_instrumentation_visitor!(CoverageVisitor { file_path: String });
''','''create_instrumentation_visitor!(CoverageVisitor { file_path: String });

/// File being instrumented.
static CURRENT_FILE: std::sync::RwLock<String> = std::sync::RwLock::new(String::new());
'''),(CV,'''    cov.set_input_source_map(&instrument_options.input_source_map);
''','''    cov.set_input_source_map(&instrument_options.input_source_map);
    *CURRENT_FILE.write().unwrap() = filename.clone();
'''),(CV,'''            &self.file_path,
''','''            &CURRENT_FILE.read().unwrap(),
''')],
"two files instrumented at the same time, or the passes of several files created before they run",
"the coverage of one file is registered under the path of another",
rs=r'''use swc_core::common::{comments::SingleThreadedComments, sync::Lrc, FileName, FilePathMapping, Globals, Mark, SourceMap, GLOBALS};
use swc_core::ecma::{ast::Program, visit::visit_mut_pass};
use swc_coverage_instrument::create_coverage_instrumentation_visitor;
use swc_ecma_codegen::{text_writer::JsWriter, Emitter};
use swc_ecma_parser::{Parser, StringInput, Syntax};
fn main() {
    GLOBALS.set(&Globals::new(), || {
        let _ = Mark::new();
        let mut passes = vec![];
        for name in ["/src/one.js", "/src/two.js"] {
            let cm: Lrc<SourceMap> = Lrc::new(SourceMap::new(FilePathMapping::empty()));
            let comments = SingleThreadedComments::default();
            let fm = cm.new_source_file(FileName::Real(name.into()).into(), "x();".to_string());
            let program = Program::Script(Parser::new(Syntax::Es(Default::default()), StringInput::from(&*fm), Some(&comments)).parse_script().unwrap());
            let visitor = create_coverage_instrumentation_visitor(cm.clone(), comments, Default::default(), name.to_string());
            passes.push((name, cm, program, visitor));
        }
        for (name, cm, mut program, visitor) in passes {
            program.mutate(&mut visit_mut_pass(visitor));
            let mut buf = vec![];
            Emitter { cfg: Default::default(), cm: cm.clone(), comments: None, wr: JsWriter::new(cm.clone(), "\n", &mut buf, None) }.emit_program(&program).unwrap();
            let out = String::from_utf8(buf).unwrap();
            assert_eq!(out.matches(name).count(), 2, "{out}");
        }
    });
}
''')
bug('nothing-to-cover-not-registered','P13',[(CV,'''        // prepend template to the top of the code
        if items.len() >= 1 {
''','''        // nothing to report
        if self.cov.borrow().as_ref().s.is_empty() && self.cov.borrow().as_ref().f.is_empty() {
            return;
        }

        // prepend template to the top of the code
        if items.len() >= 1 {
''')],
"a module without statements and functions, as one of imports and exports",
"its coverage is not registered, the report lacks the file",
H+"const { cov } = run(instrument('', { goal: 'module' }));\nassert(cov);")
bug('freeze-marks-stubs','P29',[(V+'source_coverage/mod.rs','''    pub fn freeze(&mut self) {
''','''    pub fn freeze(&mut self) {
        // nothing to run in there, same as a file which is not loaded
        self.inner.all = self.inner.s.is_empty();

''')],
"a file with functions or branches but no statement, and the merge of its coverage with that of another run",
"the coverage is taken for a stub and its hits are lost in a merge",
H+"const { cov } = run(instrument('function f() {} f; class A { m() {} }', { goal: 'module' }).replace(/^\\s*f;$/m, ''));\nconst { cov: c2 } = run(instrument('function f(a = 1) {}', { goal: 'module' }));\nassert.equal(c2.all, false);")
bug('abstract-class-not-visited','P08',[(IV,'''            let (old, ignore_current) = self.on_enter(class_decl);
            match ignore_current {
                Some(crate::hint_comments::IgnoreScope::Next) => {}
''','''            let (old, ignore_current) = self.on_enter(class_decl);
            match ignore_current {
                Some(crate::hint_comments::IgnoreScope::Next) => {}
                // never instantiated
                _ if class_decl.class.is_abstract => {}
''')],
"TypeScript instrumented with its types: an abstract class declaration which has code",
"the methods and fields of the class are not reported",
H+"const src = 'abstract class A { run() { return 1; } abstract go(): void; }';\nconst out = instrument(src, { filename: '/src/a.ts' });\nassert.match(out, /f\\[0\\]\\+\\+/);")
bug('parameter-property-default-not-visited','P06',[(IV,'''        // ClassDeclaration: entries(parenthesizedExpressionProp('superClass')),
''','''        // TSParameterProperty is a part of the type information
        fn visit_mut_ts_param_prop(&mut self, _prop: &mut TsParamProp) {}

        // ClassDeclaration: entries(parenthesizedExpressionProp('superClass')),
''')],
"TypeScript instrumented with its types: a parameter property of a constructor with a default value",
"the branch of the default value is not reported",
H+"const src = 'class A { constructor(private n = 1) {} }';\nconst out = instrument(src, { filename: '/src/a.ts' });\nassert.match(out, /default-arg/);")
bug('ignored-function-declarations','P12',[(IV,'''            let (old, ignore_current) = self.on_enter(fn_decl);
            match ignore_current {
                Some(crate::hint_comments::IgnoreScope::Next) => {}
''','''            let (old, ignore_current) = self.on_enter(fn_decl);
            let should_ignore_via_options = self
                .instrument_options
                .ignore_class_methods
                .iter()
                .any(|v| v.as_str() == &*fn_decl.ident.sym);
            match ignore_current {
                Some(crate::hint_comments::IgnoreScope::Next) => {}
                _ if should_ignore_via_options => {}
''')],
"ignoreClassMethods with a name which a function declaration has as well",
"the function declaration is not reported",
H+"const src = 'function render() { x(); } class A { render() {} }';\nconst { cov } = run(instrument(src, { options: { ignoreClassMethods: ['render'] } }));\nassert.deepEqual(functions(cov), { render: 0 });")
bug('end-column-in-bytes','P09',[(V+'utils/lookup_range.rs','''        span_hi_loc.line as u32,
        span_hi_loc.col.0 as u32,
''','''        span_hi_loc.line as u32,
        if span_hi_loc.line == span_lo_loc.line {
            span_lo_loc.col.0 as u32 + (span.hi - span.lo).0
        } else {
            span_hi_loc.col.0 as u32
        },
''')],
"a construct on one line with characters outside ASCII in it",
"the end column of the construct counts bytes",
H+"const src = 'x(\"äöü\"); y();';\nconst { cov } = run(instrument(src));\nassert.equal(cov.statementMap[0].end.column, 9);")
bug('shorter-second-truncates','P21',[(O+'file_coverage.rs','''                if pair.0.len() < item_hits.len() {
                    pair.0.resize(item_hits.len(), 0);
''','''                // locations of the other report apply
                if pair.0.len() != item_hits.len() {
                    pair.0.resize(item_hits.len(), 0);
''')],
"merging coverage of one branch which has less paths in the second report (an operand was removed, or hinted)",
"the counts of the further paths of the first report are lost",
rs=r'''use istanbul_oxide::FileCoverage;
fn cov(locations: usize, b: &str, bt: &str) -> FileCoverage {
    let locs: Vec<String> = (0..locations).map(|i| format!(r#"{{"start":{{"line":1,"column":{}}},"end":{{"line":1,"column":{}}}}}"#, i * 5, i * 5 + 1)).collect();
    serde_json::from_str(&format!(r#"{{"path":"/a.js","statementMap":{{}},"fnMap":{{}},"s":{{}},"f":{{}},"branchMap":{{"0":{{"type":"binary-expr","line":1,"loc":{{"start":{{"line":1,"column":0}},"end":{{"line":1,"column":9}}}},"locations":[{}]}}}},"b":{{"0":{}}},"bT":{{"0":{}}}}}"#, locs.join(","), b, bt)).unwrap()
}
fn main() {
    let mut a = cov(3, "[3,2,1]", "[1,2,1]");
    a.merge(&cov(2, "[1,1]", "[0,1]"));
    assert_eq!(a.b_t.unwrap()[&0], vec![1, 3, 1]);
}
''')
bug('filter-reorders','P25',[(O+'coverage_map.rs','''        let mut filtered: IndexMap<String, FileCoverage> = Default::default();

        for (_, coverage) in self.inner.drain(..) {
            if predicate(&coverage) {
                filtered.insert(coverage.path.clone(), coverage);
            }
        }

        self.inner = filtered;
''','''        let removed: Vec<String> = self
            .inner
            .values()
            .filter(|coverage| !predicate(coverage))
            .map(|coverage| coverage.path.clone())
            .collect();

        for path in removed {
            self.inner.swap_remove(&path);
        }
''')],
"filtering a map of at least three files, the removed one not among the last two",
"the order of the remaining files changes",
rs=r'''use istanbul_oxide::{CoverageMap, FileCoverage};
fn main() {
    let f: Vec<FileCoverage> = ["a", "b", "c", "d"].iter().map(|p| FileCoverage::from_file_path(p.to_string(), false)).collect();
    let mut m = CoverageMap::from_iter(f.iter());
    m.filter(|c| c.path != "a");
    assert_eq!(m.get_files(), vec!["b", "c", "d"]);
}
''')
bug('log-level-required-known','P16',[(V+'options/instrument_options.rs','''#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", default)]
pub struct InstrumentLogOptions {
''','''#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", default, deny_unknown_fields)]
pub struct InstrumentLogOptions {
''')],
"an instrumentLog object with a key this version does not know",
"the whole option text is rejected and the defaults are used",
rs=r'''use swc_coverage_instrument::InstrumentOptions;
fn main() {
    let o: InstrumentOptions = serde_json::from_str(r#"{"coverageVariable":"x","instrumentLog":{"level":"info","color":true}}"#).unwrap();
    assert_eq!(o.coverage_variable, "x");
}
''')
