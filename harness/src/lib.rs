//! Node addon around the crates under test. Everything here calls the public
//! API of the repository's crates; the oracles live on the JavaScript side.
#[macro_use]
extern crate napi_derive;

mod js;
mod oxide;

use std::cell::RefCell;
use std::panic::{catch_unwind, set_hook, AssertUnwindSafe};
use std::sync::Once;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static HOOK: Once = Once::new();

/// Runs `f`, turning a panic into Err(message at location).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    HOOK.call_once(|| {
        set_hook(Box::new(|info| {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        }));
    });
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Runs `f` on a thread with a large stack (deeply nested programs).
fn on_big_stack(f: impl FnOnce() -> String + Send) -> String {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn_scoped(s, f)
            .expect("spawn")
            .join()
            .unwrap_or_else(|_| r#"{"ok":false,"kind":"panic","message":"thread died"}"#.into())
    })
}

#[napi]
pub fn transform(code: String, request: String) -> String {
    js::transform(&code, &request)
}

#[napi]
pub fn transform_deep(code: String, request: String) -> String {
    on_big_stack(move || js::transform(&code, &request))
}

#[napi]
pub fn options_roundtrip(options: String) -> String {
    js::options_roundtrip(&options)
}

#[napi]
pub fn oxide(request: String) -> String {
    oxide::run(&request)
}

fn pairs(list: &str) -> Vec<(String, String)> {
    serde_json::from_str(list).expect("a list of [code, request]")
}

/// Answers to [code, request] pairs served at the same time, each on its own thread,
/// which serves its request `rounds` times.
#[napi]
pub fn transform_parallel(list: String, rounds: u32) -> Vec<Vec<String>> {
    let list = pairs(&list);
    let gate = std::sync::Barrier::new(list.len());
    std::thread::scope(|s| {
        let all: Vec<_> = list
            .iter()
            .map(|(code, request)| {
                let gate = &gate;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        gate.wait();
                        (0..rounds).map(|_| js::transform(code, request)).collect()
                    })
                    .expect("spawn")
            })
            .collect();
        all.into_iter()
            .map(|t| {
                t.join().unwrap_or_else(|_| {
                    vec![r#"{"ok":false,"kind":"panic","message":"thread died"}"#.into()]
                })
            })
            .collect()
    })
}

/// Answers to [code, request] pairs compiled at the same time on one thread.
#[napi]
pub fn transform_interleaved(list: String, order: Vec<u32>) -> Vec<String> {
    let order: Vec<usize> = order.into_iter().map(|i| i as usize).collect();
    js::transform_interleaved(&pairs(&list), &order)
}
