//! The macro cases emitted by spec/MacroMC.tla (the file named by MACRO_CASES,
//! one function of cases after another), run and recorded as a trace.
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;

use json::JsonValue;
use std::cell::Cell;
use util::{cps, val};

pub fn progress() {}

thread_local! { static TICKS: Cell<i32> = const { Cell::new(0) }; }
#[allow(dead_code)]
pub fn tick() -> i32 {
    TICKS.with(|t| {
        t.set(t.get() + 1);
        t.get()
    })
}
#[allow(dead_code)]
pub fn key_tick() -> String {
    format!("k{}", tick())
}
#[allow(dead_code)]
pub fn double(x: i32) -> i32 {
    2 * x
}

pub struct Env {
    pub one: i32,
    pub name: String,
    pub text: &'static str,
}

include!(env!("MACRO_CASES"));

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut cx = util::Ctx::new("C21", 1, 0, false, &args[1], false, vec![]);
    let env = Env { one: 1, name: "Al".to_string(), text: "Al" };
    all(&env, &mut |text: &str, make: &dyn Fn() -> JsonValue| {
        TICKS.with(|t| t.set(0));
        cx.event("macro", format!("\"i\":{}", cps(text)), || format!("\"v\":{}", val(&make())));
    });
    cx.finish();
}
