#![feature(alloc_error_hook)]
//! Deterministic simulation of magnesia with fault injection.
//!
//!   sim check <property>        search (VERIF_SEED, VERIF_TIER), evidence
//!   sim replay <file>           re-execute one replay file
//!   sim selftest [runs]         determinism of every scenario
mod alloc;
mod ctx;
mod driver;
mod elem;
mod elementary;
mod expr;
mod fam;
mod ints;
mod opt;
mod props;
mod sched;
mod shared;
mod store;
mod tape;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    std::process::exit(driver::main());
}
