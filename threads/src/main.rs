//! C26: what may be sent to and shared between threads, and survive a panic
//! of a callback, is decided by the compiler.
#![allow(deprecated)]
use std::panic::{RefUnwindSafe, UnwindSafe};

fn shared<T: Send + Sync + UnwindSafe + RefUnwindSafe + 'static>() {}
fn lent<T: Send + Sync>() {}
fn moved<T: Send>() {}

fn main() {
    shared::<json::JsonValue>();
    shared::<json::object::Object>();
    shared::<json::number::Number>();
    shared::<json::short::Short>();
    shared::<json::Error>();
    shared::<json::Result<json::JsonValue>>();
    shared::<json::Array>();
    shared::<json::codegen::DumpGenerator>();
    shared::<json::codegen::PrettyGenerator>();
    lent::<json::object::Iter<'static>>();
    lent::<json::object::IterMut<'static>>();
    lent::<json::iterators::Members<'static>>();
    lent::<json::iterators::MembersMut<'static>>();
    lent::<json::iterators::Entries<'static>>();
    lent::<json::iterators::EntriesMut<'static>>();
    moved::<json::codegen::WriterGenerator<'static, Vec<u8>>>();
    moved::<json::codegen::PrettyWriterGenerator<'static, Vec<u8>>>();
    // used that way
    let v = std::sync::Arc::new(json::parse("{\"a\":[1,2]}").unwrap());
    let w = v.clone();
    let t = std::thread::spawn(move || w["a"][1] == 2);
    assert!(t.join().unwrap() && v["a"][0] == 1);
}
