#![allow(clippy::all)]
pub mod alloc;
pub mod atnsim;
pub mod cd;
pub mod cl;
pub mod cm;
pub mod cp;
pub mod cs;
pub mod ct;
pub mod cx;
pub mod gen;
pub mod gram;
pub mod interp;
pub mod lex;
pub mod model;
pub mod oracle;
pub mod out;
pub mod rep;
pub mod rng;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
