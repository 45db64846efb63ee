//! A small command interpreter over the data model crate. Every oracle is on the JavaScript side.
use crate::guarded;
use istanbul_oxide::verif_hooks::{
    line_coverage_parts, percent, summary_parts, CoveragePercentage, CoverageSummary, Totals,
};
use istanbul_oxide::{CoverageMap, FileCoverage};
use serde_json::{json, Value};

#[derive(Default)]
struct Env {
    files: Vec<FileCoverage>,
    maps: Vec<CoverageMap>,
    sums: Vec<CoverageSummary>,
}

fn idx(op: &Value, k: &str) -> usize {
    op[k].as_u64().unwrap_or_else(|| panic!("harness: no index {k}")) as usize
}
fn text<T: serde::Serialize>(v: &T) -> Value {
    Value::String(serde_json::to_string(v).expect("serialise"))
}
fn totals(t: &Totals) -> Value {
    json!([
        t.total,
        t.covered,
        t.skipped,
        match t.pct {
            CoveragePercentage::Unknown => json!("Unknown"),
            CoveragePercentage::Value(v) => json!(v as f64),
        }
    ])
}
fn parts(s: &CoverageSummary) -> Value {
    let (a, bt) = summary_parts(s);
    json!({"lines": totals(&a[0]), "statements": totals(&a[1]), "functions": totals(&a[2]),
           "branches": totals(&a[3]), "branchesTrue": bt.as_ref().map(totals), "empty": s.is_empty()})
}
fn to_totals(v: &Value) -> Totals {
    let n = |i: usize| v[i].as_u64().unwrap() as u32;
    Totals::new(
        n(0),
        n(1),
        n(2),
        match v[3].as_f64() {
            Some(f) => CoveragePercentage::Value(f as f32),
            None => CoveragePercentage::Unknown,
        },
    )
}

fn step(e: &mut Env, op: &Value) -> Value {
    match op["op"].as_str().unwrap_or("") {
        // text -> file
        "parse" => match serde_json::from_str::<FileCoverage>(op["text"].as_str().unwrap()) {
            Ok(f) => {
                e.files.push(f);
                json!({"ok": e.files.len() - 1})
            }
            Err(x) => json!({"err": x.to_string()}),
        },
        "empty" => {
            let (p, l) = (
                op["path"].as_str().unwrap().to_string(),
                op["logic"].as_bool().unwrap(),
            );
            e.files.push(if op["alt"].as_bool() == Some(true) {
                FileCoverage::from_file_path(p, l)
            } else {
                FileCoverage::empty(p, l)
            });
            json!(e.files.len() - 1)
        }
        "clone" => {
            let f = FileCoverage::from_file_coverage(&e.files[idx(op, "a")]);
            e.files.push(f);
            json!(e.files.len() - 1)
        }
        "eq" => json!(e.files[idx(op, "a")] == e.files[idx(op, "b")]),
        "merge" => {
            let b = e.files[idx(op, "b")].clone();
            e.files[idx(op, "a")].merge(&b);
            json!(b == e.files[idx(op, "b")] || op["a"] == op["b"])
        }
        "reset" => {
            e.files[idx(op, "a")].reset_hits();
            Value::Null
        }
        "dump" => text(&e.files[idx(op, "a")]),
        "lines" => {
            let m = e.files[idx(op, "a")].get_line_coverage();
            json!(m.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>())
        }
        "uncovered" => json!(e.files[idx(op, "a")].get_uncovered_lines()),
        "branchLines" => {
            let m = e.files[idx(op, "a")].get_branch_coverage_by_line();
            json!(m
                .iter()
                .map(|(k, v)| {
                    let (c, t, p) = line_coverage_parts(v);
                    json!([k, c, t, p as f64])
                })
                .collect::<Vec<_>>())
        }
        "summary" => {
            let s = e.files[idx(op, "a")].to_summary();
            let v = parts(&s);
            e.sums.push(s);
            v
        }
        "map.new" => {
            e.maps.push(if op["alt"].as_bool() == Some(true) {
                CoverageMap::default()
            } else {
                CoverageMap::new()
            });
            json!(e.maps.len() - 1)
        }
        "map.from" => {
            let l: Vec<FileCoverage> = op["list"]
                .as_array()
                .unwrap()
                .iter()
                .map(|i| e.files[i.as_u64().unwrap() as usize].clone())
                .collect();
            e.maps.push(CoverageMap::from_iter(&l));
            json!(e.maps.len() - 1)
        }
        "map.clone" => {
            let m = e.maps[idx(op, "m")].clone();
            e.maps.push(m);
            json!(e.maps.len() - 1)
        }
        "map.add" => {
            let f = e.files[idx(op, "a")].clone();
            e.maps[idx(op, "m")].add_coverage_for_file(&f);
            json!(f == e.files[idx(op, "a")])
        }
        "map.merge" => {
            let n = e.maps[idx(op, "n")].clone();
            let keep = n.clone();
            e.maps[idx(op, "m")].merge(&n);
            json!(keep == n)
        }
        "map.filter" => {
            let keep: Vec<String> = op["keep"]
                .as_array()
                .unwrap()
                .iter()
                .map(|v| v.as_str().unwrap().to_string())
                .collect();
            e.maps[idx(op, "m")].filter(|f| keep.contains(&f.path));
            Value::Null
        }
        // the whole content, in order
        "map.dump" => {
            let m = &e.maps[idx(op, "m")];
            json!(m
                .get_files()
                .into_iter()
                .map(|p| json!([p, m.get_coverage_for_file(p).map(|f| text(f))]))
                .collect::<Vec<_>>())
        }
        "map.get" => e.maps[idx(op, "m")]
            .get_coverage_for_file(op["path"].as_str().unwrap())
            .map(|f| text(f))
            .unwrap_or(Value::Null),
        "map.summary" => {
            let s = e.maps[idx(op, "m")].get_coverage_summary();
            let v = parts(&s);
            e.sums.push(s);
            v
        }
        "sum.new" => {
            let p = &op["parts"];
            let bt = if p["branchesTrue"].is_null() {
                None
            } else {
                Some(to_totals(&p["branchesTrue"]))
            };
            e.sums.push(CoverageSummary::new(
                to_totals(&p["lines"]),
                to_totals(&p["statements"]),
                to_totals(&p["functions"]),
                to_totals(&p["branches"]),
                bt,
            ));
            json!(e.sums.len() - 1)
        }
        "sum.default" => {
            e.sums.push(if op["alt"].as_bool() == Some(true) {
                Default::default()
            } else {
                CoverageSummary::default()
            });
            json!(e.sums.len() - 1)
        }
        "sum.clone" => {
            let s = CoverageSummary::from(&e.sums[idx(op, "a")]);
            e.sums.push(s);
            json!(e.sums.len() - 1)
        }
        "sum.merge" => {
            let b = e.sums[idx(op, "b")];
            let before = parts(&b);
            e.sums[idx(op, "a")].merge(&b);
            json!(before == parts(&b))
        }
        "sum.parts" => parts(&e.sums[idx(op, "a")]),
        "percent" => json!(op["pairs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| percent(p[0].as_u64().unwrap() as u32, p[1].as_u64().unwrap() as u32) as f64)
            .collect::<Vec<_>>()),
        other => panic!("harness: unknown op {other}"),
    }
}

pub fn run(request: &str) -> String {
    let ops: Vec<Value> = match serde_json::from_str(request) {
        Ok(o) => o,
        Err(e) => return json!({"error": e.to_string()}).to_string(),
    };
    let mut env = Env::default();
    let mut out = vec![];
    for op in &ops {
        match guarded(|| step(&mut env, op)) {
            Ok(v) => out.push(v),
            Err(m) => {
                out.push(json!({"panic": m}));
                break;
            }
        }
    }
    Value::Array(out).to_string()
}
