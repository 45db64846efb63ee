from bugs1 import bug,B,V,O,PL,H
U='''use istanbul_oxide::*;
fn file(text: &str) -> FileCoverage {
    serde_json::from_str(text).unwrap()
}
#[allow(unused)]
fn json(value: &FileCoverage) -> serde_json::Value {
    serde_json::to_value(value).unwrap()
}
'''
bug('merge-key-without-end-line','P20',[(O+'file_coverage.rs','''    format!(
        "{}|{}|{}|{}",
        range.start.line, range.start.column, range.end.line, range.end.column
    )''','''    format!(
        "{}|{}|{}",
        range.start.line, range.start.column, range.end.column
    )''')],
"two statements which start at the same place and end in the same column of different lines",
"their counts are merged into one and the other entry is lost",
rs=U+'''fn main() {
    let text = r#"{"path":"a","statementMap":{"0":{"start":{"line":1,"column":0},"end":{"line":3,"column":1}},"1":{"start":{"line":1,"column":0},"end":{"line":4,"column":1}}},"fnMap":{},"branchMap":{},"s":{"0":1,"1":2},"f":{},"b":{}}"#;
    let mut a = file(text);
    a.merge(&file(text));
    assert_eq!(json(&a)["s"], serde_json::json!({"0": 2, "1": 4}));
}
''')
bug('merge-skips-unexecuted','P20',[(O+'file_coverage.rs','''        if coverage.all {
            return;
        }
''','''        // stub of the file never loaded, or a run which did not execute anything
        if coverage.all || (!self.all && coverage.s.values().all(|hits| *hits == 0)) {
            return;
        }
''')],
"merging coverage in which no statement ran but a function was called or a branch was taken, or which has other locations",
"the counts and entries of the merged-in coverage are lost",
rs=U+'''fn main() {
    let f = |n: u32| file(&format!(r#"{{"path":"a","statementMap":{{}},"fnMap":{{"0":{{"name":"f","decl":{{"start":{{"line":1,"column":0}},"end":{{"line":1,"column":1}}}},"loc":{{"start":{{"line":1,"column":2}},"end":{{"line":1,"column":4}}}},"line":1}}}},"branchMap":{{}},"s":{{}},"f":{{"0":{n}}},"b":{{}}}}"#));
    let mut a = f(1);
    a.merge(&f(2));
    assert_eq!(json(&a)["f"]["0"], 3);
}
''')
bug('stub-kept-by-idle-run','P22',[(O+'file_coverage.rs','''        if self.all {
            *self = coverage.clone();
            return;
        }
''','''        if self.all && coverage.s.values().any(|hits| *hits > 0) {
            *self = coverage.clone();
            return;
        }
''')],
"three coverage objects: a stub of a never loaded file, then a run in which no statement executed (only functions or branches), then another run",
"the result is still marked as a stub after the second, and its counts are replaced by the third",
rs=U+'''fn main() {
    let f = |s: u32, n: u32| file(&format!(r#"{{"path":"a","statementMap":{{"0":{{"start":{{"line":1,"column":0}},"end":{{"line":1,"column":1}}}}}},"fnMap":{{"0":{{"name":"f","decl":{{"start":{{"line":1,"column":0}},"end":{{"line":1,"column":1}}}},"loc":{{"start":{{"line":1,"column":2}},"end":{{"line":1,"column":4}}}},"line":1}}}},"branchMap":{{}},"s":{{"0":{s}}},"f":{{"0":{n}}},"b":{{}}}}"#));
    let mut a = f(0, 0);
    a.all = true;
    a.merge(&f(0, 1));
    a.merge(&f(1, 1));
    assert_eq!(json(&a)["f"]["0"], 2);
}
''')
bug('branch-line-by-end','P23',[(O+'file_coverage.rs','''                map.loc.expect("Either line or loc should exist").start.line
''','''                map.loc.expect("Either line or loc should exist").end.line
''')],
"a branch without the deprecated `line`, spanning several lines",
"its paths are reported on the last line of the branch",
rs=U+'''fn main() {
    let f = file(r#"{"path":"a","statementMap":{},"fnMap":{},"branchMap":{"0":{"type":"if","loc":{"start":{"line":2,"column":0},"end":{"line":5,"column":1}},"locations":[{"start":{"line":2,"column":0},"end":{"line":5,"column":1}}]}},"s":{},"f":{},"b":{"0":[1]}}"#);
    assert_eq!(f.get_branch_coverage_by_line().keys().copied().collect::<Vec<u32>>(), vec![2]);
}
''')
bug('percent-in-floating-point','P24',[(O+'percent.rs','''        let tmp: f64 = ((1000 * 100 * covered as u64) / total as u64) as f64;
        return (tmp as f32 / 10 as f32).floor() / 100 as f32;
''','''        let tmp = covered as f64 / total as f64 * 100.0;
        return ((tmp * 100.0).floor() / 100.0) as f32;
''')],
"a ratio whose percentage is exact but not representable, like 29 of 100",
"the percentage is one hundredth too low",
rs=U+'''fn main() {
    for (covered, total, want) in [(29usize, 100usize, 29.0f32), (57, 100, 57.0), (1, 3, 33.33), (113, 1000, 11.3)] {
        let stmts: Vec<String> = (0..total).map(|i| format!(r#""{i}":{{"start":{{"line":{},"column":0}},"end":{{"line":{},"column":1}}}}"#, i + 1, i + 1)).collect();
        let hits: Vec<String> = (0..total).map(|i| format!(r#""{i}":{}"#, (i < covered) as u32)).collect();
        let f = file(&format!(r#"{{"path":"a","statementMap":{{{}}},"fnMap":{{}},"branchMap":{{}},"s":{{{}}},"f":{{}},"b":{{}}}}"#, stmts.join(","), hits.join(",")));
        let text = format!("{:?}", FileCoverage::compute_simple_totals(&f.s));
        assert!(text.contains(&format!("Value({want:?})")), "{covered}/{total}: {text}");
    }
}
''')
bug('same-data-not-added-twice','P25',[(O+'coverage_map.rs','''            value.merge(coverage);
''','''            // same run may be reported more than once (i.e per project of a workspace)
            if value != coverage {
                value.merge(coverage);
            }
''')],
"adding coverage equal to what the map already holds for the file",
"the second run is dropped instead of being added",
rs=U+'''fn main() {
    let f = file(r#"{"path":"a","statementMap":{"0":{"start":{"line":1,"column":0},"end":{"line":1,"column":1}}},"fnMap":{},"branchMap":{},"s":{"0":1},"f":{},"b":{}}"#);
    let m = CoverageMap::from_iter([&f, &f]);
    assert_eq!(json(m.get_coverage_for_file("a").unwrap())["s"]["0"], 2);
}
''')
bug('summary-skips-files-without-lines','P26',[(O+'coverage_map.rs','''            ret.merge(&coverage.to_summary());
''','''            let summary = coverage.to_summary();
            if !summary.is_empty() {
                ret.merge(&summary);
            }
''')],
"a file with functions or branches but without statements, among others",
"its functions and branches are missing from the summary of the map",
rs=U+'''fn main() {
    let f = file(r#"{"path":"a","statementMap":{},"fnMap":{"0":{"name":"f","decl":{"start":{"line":1,"column":0},"end":{"line":1,"column":1}},"loc":{"start":{"line":1,"column":2},"end":{"line":1,"column":4}},"line":1}},"branchMap":{},"s":{},"f":{"0":1},"b":{}}"#);
    let mut g = f.clone();
    g.path = "b".to_string();
    let m = CoverageMap::from_iter([&f, &g]);
    let got = m.get_coverage_summary();
    let (parts, _) = verif_hooks::summary_parts(&got);
    assert_eq!((parts[2].total, parts[2].covered), (2, 2));
}
''')
bug('all-required','P27',[(O+'file_coverage.rs','''    #[serde(default)]
    pub all: bool,
''','''    pub all: bool,
''')],
"coverage JSON written by Istanbul (which has no `all` unless the file is a stub)",
"the coverage cannot be read",
rs=U+'''fn main() {
    let f: Result<FileCoverage, _> = serde_json::from_str(r#"{"path":"a","statementMap":{},"fnMap":{},"branchMap":{},"s":{},"f":{},"b":{}}"#);
    assert!(!f.unwrap().all);
}
''')
bug('reset-drops-source-map','P28',[(O+'file_coverage.rs','''    pub fn reset_hits(&mut self) {
''','''    pub fn reset_hits(&mut self) {
        // remapped with the coverage of the next run
        self.input_source_map = None;

''')],
"resetting coverage of a file compiled with an input source map",
"the source map is lost",
rs=U+'''fn main() {
    let mut f = file(r#"{"path":"a","statementMap":{},"fnMap":{},"branchMap":{},"s":{},"f":{},"b":{},"inputSourceMap":{"version":3,"sources":["x"],"names":[],"mappings":"AAAA"}}"#);
    f.reset_hits();
    assert!(f.input_source_map.is_some());
}
''')
bug('mixed-separators','P17',[(PL,'''    } else if path.contains('\\\\') {''','''    } else if path.contains('\\\\') && !path.contains('/') {''')],
"a relative filename or glob with both forward and backslashes",
"backslashes are left, the glob does not match and the file is instrumented",
plugin="exclude")
bug('plugin-normalizes-filename','P18',[(PL,'''        instrument_options,
        filename.to_string(),
    );
''','''        instrument_options,
        normalize_path(filename),
    );
''')],
"a filename with backslashes",
"the coverage registers under another path than with the library pass",
plugin="filename")
