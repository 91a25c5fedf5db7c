//! Worker for the properties about encoding and decoding whole values.
#![allow(unused_braces, unused_parens, clippy::all)]
mod alloc;
mod effort;
mod mishap;
mod props;
mod pure;
mod tags;
mod types;
mod types_gen;

#[global_allocator]
static METER: alloc::Meter = alloc::Meter;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--nest") {
        props::nest_child();
    }
    if std::env::args().nth(1).as_deref() == Some("--step") {
        pure::step_child();
    }
    vcore::engine::main_with(|id| props::lookup(id))
}
