//! Which simulated runs decide which property.

use crate::ctx::{chance, weighted};
use crate::store::{self, Focus};
use crate::{expr, opt, shared};

pub struct Prop {
    pub id: &'static str,
    /// Runs per tier.
    pub quick: u64,
    pub thorough: u64,
    /// The memory held by the library is compared between runs (C13).
    pub memory: bool,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub run: fn(),
}

const OPT_REAL: &str = "magnesia::optimize::differential_evolution, compiled from /repo; the sampling code of the rand crate (f32, f64, usize ranges)";
const OPT_STUB: &str = "random generator (SimRng), comparison callback, scalar type Sx (f64 and f32 in part of the runs), allocator (counting, failing)";
const LIN_REAL: &str = "magnesia::algebra and magnesia::linalg, compiled from /repo";
const LIN_STUB: &str = "scalar element type (exact field element E; the library's own Complex, Polynomial and SMatrix on top of it), user expressions and closures, allocator (counting, failing)";

fn hist(cats: [u64; 5], faults: [u64; 4]) {
    store::run(&Focus { cats, faults, steps: (1, 8) })
}

pub fn all() -> Vec<Prop> {
    let p = |id, quick, thorough, rule, real, stub, run| Prop { id, quick, thorough, memory: false, rule, real, stub, run };
    vec![
        p("C01", 1_000_000, 12_000_000,
            "optimizer run: random dimension, scalar, bounds, population, crossover, weight, iterations, generator stalls and extreme words, consistent order with ties; non-trivial: at least 4 comparisons",
            OPT_REAL, OPT_STUB, opt::unbeaten),
        p("C02", 1_000_000, 12_000_000,
            "optimizer run with arbitrary (lying, random, constant, NaN-like) comparison answers, replayed slot by slot; non-trivial: at least 4 comparisons",
            OPT_REAL, OPT_STUB, opt::replayed),
        p("C03", 200_000, 2_500_000,
            "optimizer run over an exact scalar with arbitrary answers, every (for big populations every n-th) trial vector searched for its donors; non-trivial: at least 4 comparisons",
            OPT_REAL, OPT_STUB, || if chance(1, 1000) { opt::donors_at_scale() } else { opt::explained() }),
        p("C04", 250_000, 8_000_000,
            "optimizer run with stuck-generator windows of up to 20000 draws anywhere; non-trivial: at least 4 comparisons",
            OPT_REAL, OPT_STUB, || if chance(1, 3) { opt::replayed() } else { opt::budget() }),
        p("C05", 1_500_000, 12_000_000,
            "optimizer run with extreme and stuck words in the starting draws; non-trivial: at least 4 comparisons",
            OPT_REAL, OPT_STUB, opt::start_population),
        p("C06", 300_000, 3_000_000,
            "2-4 optimizer runs interleaved on simulated threads, nested in a comparison, or following aborted runs, compared with solo runs; non-trivial: at least 4 comparisons",
            OPT_REAL, OPT_STUB, opt::isolation),
        p("C07", 500_000, 6_000_000,
            "optimizer run with a failure at one chosen draw, comparison, scalar operation or allocation, then a following call; non-trivial: the failure fired",
            OPT_REAL, OPT_STUB, opt::aborted),
        p("C08", 320, 6_000,
            "pool of some thousand optimizer runs of one configuration with a fair generator and exact scalars, frequencies tested; non-trivial: at least 10000 trial vectors",
            OPT_REAL, OPT_STUB, || match weighted(&[5, 2, 2]) {
                0 => opt::frequencies(150_000),
                1 => opt::donor_frequencies(150_000),
                _ => opt::crossover_frequencies(150_000),
            }),
        p("C09", 4_800, 300_000,
            "batch of 5 optimizations of one convex problem with generator stalls and a lying prefix; non-trivial: every batch",
            OPT_REAL, OPT_STUB, || opt::progress(5)),
        p("C10", 60_000, 4_000_000,
            "history of up to 8 operations, mostly *=, each with a failure at a chosen element operation or allocation; non-trivial: at least one failure fired",
            LIN_REAL, LIN_STUB, || hist([12, 1, 1, 0, 0], [2, 6, 0, 3])),
        p("C11", 200_000, 6_000_000,
            "history of up to 8 in-place updates, each with a failure at a chosen element operation, source or allocation; non-trivial: at least one failure fired",
            LIN_REAL, LIN_STUB, || hist([1, 12, 1, 0, 0], [3, 5, 4, 2])),
        p("C12", 180_000, 4_000_000,
            "history of up to 8 operations of all kinds (incl. rejected and lazily evaluated later) over a store of live values, all other values compared after every step; non-trivial: at least one failure fired",
            LIN_REAL, LIN_STUB, || hist([4, 4, 4, 3, 4], [3, 5, 3, 3])),
        Prop {
            id: "C13", quick: 200_000, thorough: 6_000_000, memory: true,
            rule: "history, expression, threaded or optimizer run with failures, the memory still held by the library compared after every run and over series of runs; non-trivial: at least one failure fired",
            real: LIN_REAL, stub: LIN_STUB,
            run: || match weighted(&[16, 8, 2, 4, 1]) {
                0 => hist([4, 4, 4, 2, 2], [2, 6, 3, 4]),
                1 => expr::run(),
                2 => shared::run(),
                4 => crate::elementary::run(),
                _ => opt::aborted(),
            },
        },
        p("C14", 1_500_000, 15_000_000,
            "random expression tree over stateful sources, 1-4 evaluations, updates and single-entry reads with failures; non-trivial: at least one source call",
            LIN_REAL, LIN_STUB, expr::run),
        p("C15", 90_000, 2_500_000,
            "2-4 simulated threads running value operations on shared operands, failures in some; non-trivial: at least one thread switch inside an operation",
            LIN_REAL, LIN_STUB, shared::run),
        p("C16", 600_000, 6_000_000,
            "history with mismatched, out-of-range and boundary-valid requests, or one optimizer call with invalid or boundary-valid arguments; non-trivial: at least one refused request",
            LIN_REAL, LIN_STUB, || if chance(1, 4) { opt::arguments() } else { hist([0, 2, 2, 12, 1], [3, 3, 2, 2]) }),
        p("C17", 160_000, 5_000_000,
            "history of up to 8 value-returning operations, each with a failure at a chosen element operation, source or allocation, repeated after it; non-trivial: at least one failure fired",
            LIN_REAL, LIN_STUB, || if chance(1, 200) { crate::fam::empty_inner() } else { hist([1, 1, 12, 0, 1], [3, 5, 3, 3]) }),
        p("C22", 1_000_000, 20_000_000,
            "1-4 elementary functions of complex numbers over a tracked real scalar, each with a failure at a chosen scalar operation and repeated after it; on threads sharing the operand; over f32 and f64; non-trivial: at least one failure fired",
            "magnesia::algebra::Complex, compiled from /repo", "real scalar type Y (f64 value, tracked, failing)", crate::elementary::run),
    ]
}

pub fn nontrivial(id: &str, o: &crate::ctx::RunOut) -> bool {
    use crate::ctx::K;
    let st = |k: &str| o.stats.get(k).copied().unwrap_or(0);
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => o.ev[K::Cmp as usize] >= 4,
        "C08" => st("trial vectors explained") >= 10_000,
        "C09" => true,
        "C14" => o.ev[K::Source as usize] > 0,
        "C15" => st("thread switches") > 0,
        "C16" => st("fault: rejected request") > 0,
        _ => o.fired.iter().sum::<u64>() > 0,
    }
}

