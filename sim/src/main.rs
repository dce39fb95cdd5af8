#![feature(alloc_error_hook)]
#![allow(clippy::all)]
mod check_rust;
mod codegen;
mod ctx;
mod driver;
mod gen_code;
mod gen_store;
mod known;
mod leak;
mod model;
mod plan;
mod prng;
mod rt;
mod scenario;
mod sched;
mod store;

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;

fn main() { driver::main() }
