use serde::Deserialize;
use serde_json::json;
use swc_core::{
    common::{
        comments::{Comments, SingleThreadedComments},
        errors::{Handler, HANDLER},
        sync::Lrc,
        FileName, FilePathMapping, Globals, Mark, SourceMap, GLOBALS,
    },
    ecma::{
        ast::*,
        codegen::{text_writer::JsWriter, Config, Emitter},
        parser::{EsSyntax, Parser, StringInput, Syntax, TsSyntax},
        transforms::{
            base::{
                fixer::{fixer, paren_remover},
                helpers::{inject_helpers, HelperData, Helpers, HELPERS},
                hygiene::hygiene,
                resolver,
            },
            module::{common_js, path::Resolver},
            proposal::{
                decorator_2022_03::decorator_2022_03,
                decorators,
                explicit_resource_management::explicit_resource_management,
            },
            react,
            typescript::typescript,
        },
        visit::{visit_mut_pass, VisitMut},
    },
};
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};

use crate::guarded;

fn yes() -> bool {
    true
}

#[derive(Deserialize)]
#[serde(rename_all = "camelCase")]
struct Request {
    #[serde(default)]
    filename: String,
    /// es | ts | jsx | tsx
    #[serde(default)]
    syntax: String,
    /// module | script | program
    #[serde(default)]
    goal: String,
    /// Options JSON text, deserialised the way the plugin does it. None: do not instrument.
    #[serde(default)]
    options: Option<String>,
    #[serde(default)]
    cjs: bool,
    #[serde(default)]
    react: bool,
    /// Emit right after instrumentation, without the passes that follow it in swc.
    #[serde(default)]
    raw: bool,
    #[serde(default)]
    minify: bool,
    #[serde(default = "yes")]
    comments: bool,
    /// Also answer where each token of the output comes from: line, column, byte offset in the source.
    #[serde(default)]
    map: bool,
    /// Sources loaded into the compiler's source map before this one (shifts every position).
    #[serde(default)]
    before: Vec<String>,
    /// Decorators, auto accessors, `using` and import attributes in the source.
    #[serde(default)]
    proposals: bool,
    /// How decorators are lowered: 2021 | legacy | 2022. They stay as they are without it.
    #[serde(default)]
    decorators: String,
    /// Lower `using` declarations.
    #[serde(default)]
    lower_using: bool,
    /// Instrument the parsed program itself, before decorators, `using` and types are lowered
    /// (swc's runPluginFirst).
    #[serde(default)]
    first: bool,
}

fn fail(kind: &str, message: String) -> String {
    json!({"ok": false, "kind": kind, "message": message}).to_string()
}

pub fn options_roundtrip(options: &str) -> String {
    match guarded(|| {
        let o: InstrumentOptions = match serde_json::from_str(options) {
            Ok(o) => o,
            Err(e) => return fail("options", e.to_string()),
        };
        let text = serde_json::to_string(&o).unwrap();
        let again: Result<InstrumentOptions, _> = serde_json::from_str(&text);
        json!({"ok": true, "value": serde_json::from_str::<serde_json::Value>(&text).unwrap(),
               "stable": again.map(|a| a == o).unwrap_or(false)})
        .to_string()
    }) {
        Ok(s) => s,
        Err(m) => fail("panic", m),
    }
}

pub fn transform(code: &str, request: &str) -> String {
    let req: Request = match serde_json::from_str(request) {
        Ok(r) => r,
        Err(e) => return fail("request", e.to_string()),
    };
    match guarded(|| match prepare(code, req) {
        Ok(job) => finish(job),
        Err(m) => m,
    }) {
        Ok(s) => s,
        Err(m) => fail("panic", m),
    }
}

/// Several compilations on this thread at once: all are parsed and given their visitor first,
/// in order, and then run in the order of `finish_order`.
pub fn transform_interleaved(list: &[(String, String)], finish_order: &[usize]) -> Vec<String> {
    let mut jobs: Vec<Option<Result<Job, String>>> = list
        .iter()
        .map(|(code, request)| {
            Some(match serde_json::from_str(request) {
                Ok(req) => match guarded(|| prepare(code, req)) {
                    Ok(r) => r,
                    Err(m) => Err(fail("panic", m)),
                },
                Err(e) => Err(fail("request", e.to_string())),
            })
        })
        .collect();
    let mut out = vec![String::new(); list.len()];
    for &i in finish_order {
        if let Some(job) = jobs[i].take() {
            out[i] = match job {
                Ok(job) => match guarded(|| finish(job)) {
                    Ok(s) => s,
                    Err(m) => fail("panic", m),
                },
                Err(m) => m,
            };
        }
    }
    out
}

/// A file being compiled, up to the instrumentation pass.
struct Job {
    globals: Globals,
    helpers: HelperData,
    req: Request,
    cm: Lrc<SourceMap>,
    comments: SingleThreadedComments,
    program: Program,
    unresolved_mark: Mark,
    top_level_mark: Mark,
    visitor: Option<Box<dyn VisitMut>>,
}

fn in_swc<T>(globals: &Globals, helpers: &Helpers, cm: &Lrc<SourceMap>, f: impl FnOnce() -> T) -> T {
    let handler = Handler::with_emitter_writer(Box::new(std::io::sink()), Some(cm.clone()));
    GLOBALS.set(globals, || HELPERS.set(helpers, || HANDLER.set(&handler, f)))
}

/// Proposals and types, in swc's order.
fn lower(program: &mut Program, req: &Request, unresolved_mark: Mark, top_level_mark: Mark) {
    match req.decorators.as_str() {
        "2021" | "legacy" => program.mutate(&mut decorators(decorators::Config {
            legacy: req.decorators == "legacy",
            emit_metadata: false,
            use_define_for_class_fields: true,
        })),
        "2022" => program.mutate(&mut decorator_2022_03()),
        _ => {}
    }
    if req.lower_using {
        program.mutate(&mut explicit_resource_management());
    }
    if matches!(req.syntax.as_str(), "ts" | "tsx") {
        program.mutate(&mut typescript(
            Default::default(),
            unresolved_mark,
            top_level_mark,
        ));
    }
}

fn prepare(code: &str, req: Request) -> Result<Job, String> {
    let globals = Globals::new();
    let cm: Lrc<SourceMap> = Lrc::new(SourceMap::new(FilePathMapping::empty()));
    let comments = SingleThreadedComments::default();
    let helpers = GLOBALS.set(&globals, || Helpers::new(false));
    let (program, unresolved_mark, top_level_mark, visitor) =
        in_swc(&globals, &helpers, &cm, || prepare_inner(code, &req, &cm, &comments))?;
    Ok(Job {
        globals,
        helpers: helpers.data(),
        req,
        cm,
        comments,
        program,
        unresolved_mark,
        top_level_mark,
        visitor,
    })
}

type Prepared = (Program, Mark, Mark, Option<Box<dyn VisitMut>>);

fn prepare_inner(
    code: &str,
    req: &Request,
    cm: &Lrc<SourceMap>,
    comments: &SingleThreadedComments,
) -> Result<Prepared, String> {
    for (i, text) in req.before.iter().enumerate() {
        cm.new_source_file(
            FileName::Real(format!("/before/{i}.js").into()).into(),
            text.clone(),
        );
    }
    let fm = cm.new_source_file(
        FileName::Real(req.filename.clone().into()).into(),
        code.to_string(),
    );
    let ts = matches!(req.syntax.as_str(), "ts" | "tsx");
    let jsx = matches!(req.syntax.as_str(), "jsx" | "tsx");
    let syntax = if ts {
        Syntax::Typescript(TsSyntax {
            tsx: jsx,
            decorators: req.proposals,
            ..Default::default()
        })
    } else {
        Syntax::Es(EsSyntax {
            jsx,
            decorators: req.proposals,
            decorators_before_export: req.proposals,
            auto_accessors: req.proposals,
            explicit_resource_management: req.proposals,
            import_attributes: req.proposals,
            ..Default::default()
        })
    };
    let mut parser = Parser::new(syntax, StringInput::from(&*fm), Some(comments));
    let parsed = match req.goal.as_str() {
        "script" => parser.parse_script().map(Program::Script),
        "program" => parser.parse_program(),
        _ => parser.parse_module().map(Program::Module),
    };
    let mut program = match parsed {
        Ok(p) => p,
        Err(e) => return Err(fail("parse", format!("{:?}", e.kind()))),
    };
    if let Some(e) = parser.take_errors().into_iter().next() {
        return Err(fail("parse", format!("{:?}", e.kind())));
    }

    let unresolved_mark = Mark::new();
    let top_level_mark = Mark::new();
    program.mutate(&mut resolver(unresolved_mark, top_level_mark, ts));
    if !req.first {
        lower(&mut program, req, unresolved_mark, top_level_mark);
    }

    let mut visitor: Option<Box<dyn VisitMut>> = None;
    if let Some(options) = &req.options {
        let options: InstrumentOptions = match serde_json::from_str(options) {
            Ok(o) => o,
            Err(e) => return Err(fail("options", e.to_string())),
        };
        match guarded(|| {
            create_coverage_instrumentation_visitor(
                cm.clone(),
                comments.clone(),
                options,
                req.filename.clone(),
            )
        }) {
            Ok(v) => visitor = Some(Box::new(v)),
            Err(m) => return Err(fail("panic", m)),
        }
    }
    Ok((program, unresolved_mark, top_level_mark, visitor))
}

fn finish(mut job: Job) -> String {
    let globals = std::mem::take(&mut job.globals);
    let cm = job.cm.clone();
    let helpers = GLOBALS.set(&globals, || Helpers::from_data(job.helpers));
    in_swc(&globals, &helpers, &cm, || finish_inner(job))
}

fn finish_inner(job: Job) -> String {
    let Job {
        req,
        cm,
        comments,
        mut program,
        unresolved_mark,
        top_level_mark,
        visitor,
        ..
    } = job;
    let jsx = matches!(req.syntax.as_str(), "jsx" | "tsx");
    let mut notes: Vec<(u32, String)> = vec![];
    if let Some(visitor) = visitor {
        let r = guarded(|| program.mutate(&mut visit_mut_pass(visitor)));
        if let Err(m) = r {
            return fail("panic", m);
        }
        // what the instrumenter put into the comment table for the host
        let (_, trailing) = comments.borrow_all();
        for (pos, list) in trailing.iter() {
            for c in list {
                if let Some(t) = c.text.strip_prefix("__coverage_data_json_comment__::") {
                    notes.push((pos.0, t.to_string()));
                }
            }
        }
        notes.sort();
    }

    if !req.raw {
        if req.first {
            lower(&mut program, &req, unresolved_mark, top_level_mark);
        }
        if req.react || jsx {
            program.mutate(&mut react::react::<&dyn Comments>(
                cm.clone(),
                Some(&comments),
                Default::default(),
                top_level_mark,
                unresolved_mark,
            ));
        }
        program.mutate(&mut paren_remover(Some(&comments as &dyn Comments)));
        if req.cjs || req.lower_using || !req.decorators.is_empty() {
            program.mutate(&mut inject_helpers(unresolved_mark));
        }
        if req.cjs {
            program.mutate(&mut common_js(
                Resolver::Default,
                unresolved_mark,
                common_js::Config {
                    strict: false,
                    ..Default::default()
                },
                common_js::FeatureFlag {
                    support_block_scoping: true,
                    support_arrow: true,
                },
            ));
        }
        program.mutate(&mut hygiene());
        program.mutate(&mut fixer(Some(&comments as &dyn Comments)));
    }

    let mut buf = vec![];
    let mut map = vec![];
    let start = cm.files().last().map_or(0, |f| f.start_pos.0);
    {
        let mut emitter = Emitter {
            cfg: Config::default().with_minify(req.minify),
            cm: cm.clone(),
            comments: if req.comments {
                Some(&comments as &dyn Comments)
            } else {
                None
            },
            wr: JsWriter::new(cm.clone(), "\n", &mut buf, req.map.then_some(&mut map)),
        };
        if let Err(e) = emitter.emit_program(&program) {
            return fail("emit", e.to_string());
        }
    }
    match String::from_utf8(buf) {
        Ok(code) if req.map => json!({"ok": true, "code": code, "map": map.iter().map(|(p, c)| (c.line, c.col, p.0 as i64 - start as i64)).collect::<Vec<_>>()}).to_string(),
        Ok(code) => json!({"ok": true, "code": code, "notes": notes.into_iter().map(|n| n.1).collect::<Vec<_>>()}).to_string(),
        Err(e) => fail("emit", e.to_string()),
    }
}
