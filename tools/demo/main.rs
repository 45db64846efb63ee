//! Files named .ts are parsed as TypeScript.
//! demo (<script|module> <filename> <options JSON> <in> <out>)...: instruments files, one after another.
//! Positions start after an empty leading file, as they do inside the compiler.
use std::{env, fs};
use swc_core::common::{comments::SingleThreadedComments, sync::Lrc, FileName, FilePathMapping, Globals, Mark, SourceMap, GLOBALS};
use swc_core::ecma::{ast::Program, visit::visit_mut_pass};
use swc_coverage_instrument::create_coverage_instrumentation_visitor;
use swc_ecma_codegen::{text_writer::JsWriter, Emitter};
use swc_ecma_parser::{Parser, StringInput, Syntax};

fn main() {
    let all: Vec<String> = env::args().skip(1).collect();
    for a in all.chunks(5) {
        one(a);
    }
}

fn one(a: &[String]) {
    let source = fs::read_to_string(&a[3]).unwrap();
    let out = GLOBALS.set(&Globals::new(), || {
        let _ = Mark::new();
        let cm: Lrc<SourceMap> = Lrc::new(SourceMap::new(FilePathMapping::empty()));
        let comments = SingleThreadedComments::default();
        let fm = cm.new_source_file(FileName::Real(a[1].clone().into()).into(), source);
        let syntax = if a[1].ends_with(".ts") { Syntax::Typescript(Default::default()) } else { Syntax::Es(Default::default()) };
        let mut parser = Parser::new(syntax, StringInput::from(&*fm), Some(&comments));
        let mut program = if a[0] == "script" {
            Program::Script(parser.parse_script().unwrap())
        } else {
            Program::Module(parser.parse_module().unwrap())
        };
        let options = serde_json::from_str(&a[2]).unwrap();
        let visitor = create_coverage_instrumentation_visitor(cm.clone(), comments.clone(), options, a[1].clone());
        program.mutate(&mut visit_mut_pass(visitor));
        let mut buf = vec![];
        Emitter {
            cfg: Default::default(),
            cm: cm.clone(),
            comments: Some(&comments),
            wr: JsWriter::new(cm.clone(), "\n", &mut buf, None),
        }
        .emit_program(&program)
        .unwrap();
        String::from_utf8(buf).unwrap()
    });
    fs::write(&a[4], out).unwrap();
}
