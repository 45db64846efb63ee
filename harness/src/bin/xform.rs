//! One fresh process: reads {"code":..,"request":..} lines, answers each with the transform's answer.
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, set_hook, AssertUnwindSafe};
use std::sync::Once;

#[allow(dead_code)]
#[path = "../js.rs"]
mod js;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static HOOK: Once = Once::new();

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    HOOK.call_once(|| {
        set_hook(Box::new(|info| {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        }));
    });
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn main() {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(|| {
            let mut out = std::io::stdout().lock();
            for line in std::io::stdin().lock().lines() {
                let v: serde_json::Value = serde_json::from_str(&line.expect("line")).expect("json");
                let r = js::transform(v["code"].as_str().unwrap(), v["request"].as_str().unwrap());
                writeln!(out, "{r}").unwrap();
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
