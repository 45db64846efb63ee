//! The native half of a compiler host for the compiled plugin: parses the
//! program, answers the plugin's calls (see ../js/plugin.js) and compares the
//! program it returns with the library pass applied to the same input.
#[macro_use]
extern crate napi_derive;

use std::cell::RefCell;
use std::panic::{catch_unwind, set_hook, AssertUnwindSafe};
use std::sync::Once;

use napi::bindgen_prelude::{Buffer, Null};
use napi::Either;
use serde::Deserialize;
use serde_json::json;
use swc_core::{
    common::{
        comments::{Comment, Comments, SingleThreadedComments},
        errors::{Handler, HANDLER},
        plugin::serialized::{PluginSerializedBytes, VersionedSerializable},
        source_map::{PartialLoc, SmallPos},
        sync::Lrc,
        BytePos, FileName, FilePathMapping, Globals, Mark, SourceMap, SourceMapper, Span,
        SyntaxContext, GLOBALS,
    },
    ecma::{
        ast::*,
        codegen::{text_writer::JsWriter, Config, Emitter},
        parser::{EsSyntax, Parser, StringInput, Syntax, TsSyntax},
        transforms::{base::resolver, typescript::typescript},
        visit::visit_mut_pass,
    },
};
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SESSION: RefCell<Option<Session>> = const { RefCell::new(None) };
}
static HOOK: Once = Once::new();

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    HOOK.call_once(|| {
        set_hook(Box::new(|info| {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        }));
    });
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

struct Session {
    cm: Lrc<SourceMap>,
    /// comment table, parsed program and hygiene state before any plugin ran
    before: SingleThreadedComments,
    globals: Globals,
    program: Program,
    unresolved_mark: Mark,
    /// comment table and hygiene state the plugin works on
    comments: SingleThreadedComments,
    host_globals: Globals,
    buffer: Vec<u8>,
}

fn copy(c: &SingleThreadedComments) -> SingleThreadedComments {
    let (l, t) = c.borrow_all();
    let out = SingleThreadedComments::default();
    for (p, v) in l.iter() {
        out.add_leading_comments(*p, v.clone());
    }
    for (p, v) in t.iter() {
        out.add_trailing_comments(*p, v.clone());
    }
    out
}

fn table(c: &SingleThreadedComments) -> Vec<(bool, u32, Vec<(bool, String, u32, u32)>)> {
    let (l, t) = c.borrow_all();
    let mut out = vec![];
    for (side, m) in [(false, &l), (true, &t)] {
        for (p, v) in m.iter() {
            if v.is_empty() {
                continue;
            }
            out.push((
                side,
                p.0,
                v.iter()
                    .map(|c| {
                        (
                            c.kind == swc_core::common::comments::CommentKind::Block,
                            c.text.to_string(),
                            c.span.lo.0,
                            c.span.hi.0,
                        )
                    })
                    .collect(),
            ));
        }
    }
    out.sort();
    out
}

#[derive(Deserialize)]
struct Request {
    #[serde(default)]
    syntax: String,
    #[serde(default)]
    goal: String,
    #[serde(default)]
    before: Vec<String>,
    /// decorators, accessors, `using`, import attributes
    #[serde(default)]
    proposals: bool,
    /// the plugin runs before TypeScript is stripped
    #[serde(default)]
    first: bool,
}

fn parse(code: &str, req: &Request) -> Result<Session, String> {
    let globals = Globals::new();
    let r = GLOBALS.set(&globals, || {
        let cm: Lrc<SourceMap> = Lrc::new(SourceMap::new(FilePathMapping::empty()));
        for (i, text) in req.before.iter().enumerate() {
            cm.new_source_file(
                FileName::Real(format!("/before/{i}.js").into()).into(),
                text.clone(),
            );
        }
        let comments = SingleThreadedComments::default();
        let fm = cm.new_source_file(
            FileName::Real("/host/input".into()).into(),
            code.to_string(),
        );
        let ts = matches!(req.syntax.as_str(), "ts" | "tsx");
        let jsx = matches!(req.syntax.as_str(), "jsx" | "tsx");
        let syntax = if ts {
            Syntax::Typescript(TsSyntax {
                tsx: jsx,
                decorators: req.proposals,
                ..Default::default()
            })
        } else {
            Syntax::Es(EsSyntax {
                jsx,
                decorators: req.proposals,
                decorators_before_export: req.proposals,
                auto_accessors: req.proposals,
                explicit_resource_management: req.proposals,
                import_attributes: req.proposals,
                ..Default::default()
            })
        };
        let mut parser = Parser::new(syntax, StringInput::from(&*fm), Some(&comments));
        let parsed = match req.goal.as_str() {
            "script" => parser.parse_script().map(Program::Script),
            _ => parser.parse_module().map(Program::Module),
        };
        let mut program = parsed.map_err(|e| format!("{:?}", e.kind()))?;
        if let Some(e) = parser.take_errors().into_iter().next() {
            return Err(format!("{:?}", e.kind()));
        }
        let unresolved_mark = Mark::new();
        let top_level_mark = Mark::new();
        program.mutate(&mut resolver(unresolved_mark, top_level_mark, ts));
        if ts && !req.first {
            program.mutate(&mut typescript(
                Default::default(),
                unresolved_mark,
                top_level_mark,
            ));
        }
        Ok((cm, comments, program, unresolved_mark))
    });
    let (cm, comments, program, unresolved_mark) = r?;
    Ok(Session {
        cm,
        comments: copy(&comments),
        before: comments,
        host_globals: globals.clone_data(),
        globals,
        program,
        unresolved_mark,
        buffer: vec![],
    })
}

/// Parses and opens a session; the JSON answer says whether it worked.
#[napi]
pub fn open(code: String, request: String) -> String {
    SESSION.with(|s| *s.borrow_mut() = None);
    let req: Request = match serde_json::from_str(&request) {
        Ok(r) => r,
        Err(e) => return json!({"ok": false, "kind": "request", "message": e.to_string()}).to_string(),
    };
    match guarded(|| parse(&code, &req)) {
        Ok(Ok(session)) => {
            let mark = session.unresolved_mark.as_u32();
            SESSION.with(|s| *s.borrow_mut() = Some(session));
            json!({"ok": true, "unresolvedMark": mark}).to_string()
        }
        Ok(Err(m)) => json!({"ok": false, "kind": "parse", "message": m}).to_string(),
        Err(m) => json!({"ok": false, "kind": "host panic", "message": m}).to_string(),
    }
}

fn with<T>(f: impl FnOnce(&mut Session) -> T) -> T {
    SESSION.with(|s| f(s.borrow_mut().as_mut().expect("a session")))
}

macro_rules! bytes {
    ($e:expr) => {
        Buffer::from(
            PluginSerializedBytes::try_serialize(&VersionedSerializable::new($e))
                .expect("serialise")
                .as_slice()
                .to_vec(),
        )
    };
}

#[napi]
pub fn program_bytes() -> Buffer {
    with(|s| bytes!(s.program.clone()))
}
#[napi]
pub fn string_bytes(s: String) -> Buffer {
    bytes!(s)
}

type Maybe = Either<Buffer, Null>;
fn maybe(v: Option<Buffer>) -> Maybe {
    match v {
        Some(b) => Either::A(b),
        None => Either::B(Null),
    }
}

/// get/take of the comments at a position.
#[napi]
pub fn read_comments(kind: String, pos: u32) -> Maybe {
    with(|s| {
        let p = BytePos(pos);
        let c = &s.comments;
        let v = match kind.as_str() {
            "getLeading" => c.get_leading(p),
            "getTrailing" => c.get_trailing(p),
            "takeLeading" => c.take_leading(p),
            _ => c.take_trailing(p),
        };
        maybe(v.map(|v| bytes!(v)))
    })
}
#[napi]
pub fn has_comments(leading: bool, pos: u32) -> bool {
    with(|s| {
        if leading {
            s.comments.has_leading(BytePos(pos))
        } else {
            s.comments.has_trailing(BytePos(pos))
        }
    })
}
#[napi]
pub fn comment_buffer(b: Buffer) {
    with(|s| s.buffer = b.to_vec())
}
#[napi]
pub fn write_comments(kind: String, pos: u32, to: u32) {
    with(|s| {
        let p = BytePos(pos);
        let c = &s.comments;
        let raw = PluginSerializedBytes::from_slice(&s.buffer);
        match kind.as_str() {
            "addLeading" => c.add_leading(p, raw.deserialize::<Comment>().expect("comment").into_inner()),
            "addTrailing" => c.add_trailing(p, raw.deserialize::<Comment>().expect("comment").into_inner()),
            "addLeadingMany" => c.add_leading_comments(p, raw.deserialize::<Vec<Comment>>().expect("comments").into_inner()),
            "addTrailingMany" => c.add_trailing_comments(p, raw.deserialize::<Vec<Comment>>().expect("comments").into_inner()),
            "moveLeading" => c.move_leading(p, BytePos(to)),
            "moveTrailing" => c.move_trailing(p, BytePos(to)),
            _ => c.add_pure_comment(p),
        }
    })
}
#[napi]
pub fn char_pos(pos: u32, with_file: bool) -> Either<Buffer, String> {
    with(|s| {
        let cm = s.cm.clone();
        match guarded(|| cm.lookup_char_pos(BytePos(pos))) {
            Ok(l) => Either::A(bytes!(PartialLoc {
                source_file: if with_file { Some(l.file.clone()) } else { None },
                line: l.line,
                col: l.col.to_usize(),
                col_display: l.col_display,
            })),
            Err(m) => Either::B(m),
        }
    })
}
#[napi]
pub fn span_text(kind: String, lo: u32, hi: u32) -> Buffer {
    with(|s| {
        let sp = Span::new(BytePos(lo), BytePos(hi));
        match kind.as_str() {
            "string" => bytes!(s.cm.span_to_string(sp)),
            "filename" => bytes!((*s.cm.span_to_filename(sp)).clone()),
            _ => bytes!(s.cm.span_to_snippet(sp)),
        }
    })
}
#[napi]
pub fn dummy_with_cmt() -> u32 {
    with(|s| GLOBALS.set(&s.host_globals, || Span::dummy_with_cmt().lo.0))
}
#[napi]
pub fn mark(kind: String, a: u32, b: u32) -> u32 {
    with(|s| {
        GLOBALS.set(&s.host_globals, || match kind.as_str() {
            "fresh" => Mark::fresh(Mark::from_u32(a)).as_u32(),
            "parent" => Mark::from_u32(a).parent().as_u32(),
            "apply" => SyntaxContext::from_u32(a).apply_mark(Mark::from_u32(b)).as_u32(),
            _ => SyntaxContext::from_u32(a).outer().as_u32(),
        })
    })
}

fn print(cm: &Lrc<SourceMap>, program: &Program) -> String {
    let mut buf = vec![];
    {
        let mut emitter = Emitter {
            cfg: Config::default(),
            cm: cm.clone(),
            comments: None,
            wr: JsWriter::new(cm.clone(), "\n", &mut buf, None),
        };
        if emitter.emit_program(program).is_err() {
            return "(not printable)".into();
        }
    }
    String::from_utf8_lossy(&buf).into_owned()
}

/// What the library pass does with the session's program, given the filename and
/// the options (None: defaults), and whether comments are available.
fn library(
    s: &Session,
    filename: Option<String>,
    options: InstrumentOptions,
    with_comments: bool,
) -> Result<(Program, SingleThreadedComments), String> {
    let comments = copy(&s.before);
    let globals = s.globals.clone_data();
    let handler = Handler::with_emitter_writer(Box::new(std::io::sink()), Some(s.cm.clone()));
    let mut program = s.program.clone();
    guarded(|| {
        GLOBALS.set(&globals, || {
            HANDLER.set(&handler, || {
                let c: Option<&dyn Comments> = if with_comments { Some(&comments) } else { None };
                let visitor = create_coverage_instrumentation_visitor(
                    s.cm.clone(),
                    c,
                    options,
                    filename.unwrap_or_else(|| "unknown.js".into()),
                );
                program.mutate(&mut visit_mut_pass(visitor));
            })
        })
    })?;
    Ok((program, comments))
}

#[derive(Deserialize)]
#[serde(rename_all = "camelCase")]
struct Judge {
    filename: Option<String>,
    /// the options text given to the plugin
    options: Option<String>,
    with_comments: bool,
}

/// Compares what the plugin returned (None: it trapped) with the input program and with
/// the library pass.
#[napi]
pub fn judge(result: Either<Buffer, Null>, request: String) -> String {
    let req: Judge = match serde_json::from_str(&request) {
        Ok(r) => r,
        Err(e) => return json!({"error": e.to_string()}).to_string(),
    };
    with(|s| {
        let parsed: Option<InstrumentOptions> =
            req.options.as_deref().and_then(|o| serde_json::from_str(o).ok());
        let fallback = req.options.is_some() && parsed.is_none();
        let options = parsed.unwrap_or_default();
        let lib = library(s, req.filename.clone(), options, req.with_comments);
        let got: Option<Result<Program, String>> = match &result {
            Either::A(b) => Some(
                PluginSerializedBytes::from_slice(b)
                    .deserialize::<Program>()
                    .map(|p| p.into_inner())
                    .map_err(|e| e.to_string()),
            ),
            Either::B(_) => None,
        };
        let got = match got {
            Some(Ok(p)) => Some(p),
            Some(Err(e)) => return json!({"error": format!("unreadable result: {e}")}).to_string(),
            None => None,
        };
        let unchanged = got.as_ref().map(|g| *g == s.program && table(&s.comments) == table(&s.before));
        let same = match (&got, &lib) {
            (Some(g), Ok((p, _))) => Some(g == p),
            _ => None,
        };
        let same_comments = match &lib {
            Ok((_, c)) => Some(table(c) == table(&s.comments)),
            _ => None,
        };
        let mut out = json!({
            "fallback": fallback,
            "unchanged": unchanged,
            "libraryFailed": lib.as_ref().err(),
            "libraryUnchanged": lib.as_ref().ok().map(|(p, _)| *p == s.program),
            "same": same,
            "sameComments": same_comments,
        });
        if same != Some(true) || same_comments != Some(true) {
            out["plugin"] = json!(got.as_ref().map(|g| print(&s.cm, g)));
            out["library"] = json!(lib.as_ref().ok().map(|(p, _)| print(&s.cm, p)));
            out["pluginComments"] = json!(format!("{:?}", table(&s.comments)));
            out["libraryComments"] = json!(lib.as_ref().ok().map(|(_, c)| format!("{:?}", table(c))));
            if let (Some(g), Ok((p, _))) = (&got, &lib) {
                let (a, b) = (format!("{g:?}"), format!("{p:?}"));
                let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y);
                if let Some(i) = i {
                    let lo = i.saturating_sub(120);
                    out["at"] = json!([
                        String::from_utf8_lossy(&a.as_bytes()[lo..(i + 80).min(a.len())]),
                        String::from_utf8_lossy(&b.as_bytes()[lo..(i + 80).min(b.len())])
                    ]);
                }
            }
        }
        out.to_string()
    })
}

#[napi]
pub fn close() {
    SESSION.with(|s| *s.borrow_mut() = None);
}

