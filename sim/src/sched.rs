//! Seeded scheduler: real threads, exactly one of them released at a time.
//! Switches happen only at the library's callbacks and allocations, and which
//! thread runs next and for how long is read from the tape.

use crate::ctx::{self, TID};
use crate::tape::mix;
use std::sync::{Condvar, Mutex};

struct S {
    on: bool,
    cur: usize,
    alive: Vec<bool>,
    budget: u64,
    max_budget: u64,
    switches: u64,
    hash: u64,
}
static S: Mutex<S> = Mutex::new(S { on: false, cur: 0, alive: Vec::new(), budget: 0, max_budget: 1, switches: 0, hash: 0 });
static CV: [Condvar; ctx::MAXT] = [const { Condvar::new() }; ctx::MAXT];

fn lock() -> std::sync::MutexGuard<'static, S> {
    S.lock().unwrap_or_else(|e| e.into_inner())
}

fn draw_budget(s: &mut S) {
    let b = ctx::below(s.max_budget + 1);
    s.budget = if b == 0 { u64::MAX } else { b };
}

fn choose_next(s: &mut S, from: usize) -> usize {
    let n = s.alive.len();
    let others: Vec<usize> = (1..=n).map(|d| (from + d) % n).filter(|&t| s.alive[t] && t != from).collect();
    if others.is_empty() {
        return from;
    }
    others[if others.len() == 1 { 0 } else { ctx::idx(others.len()) }]
}

/// Must be called with the library flag off.
pub fn yield_point() {
    let t = TID.with(|c| c.get());
    if t == 0 {
        return;
    }
    let mut s = lock();
    if !s.on {
        return;
    }
    if s.budget == u64::MAX {
        return;
    }
    s.budget -= 1;
    if s.budget > 0 {
        return;
    }
    let me = t - 1;
    let next = choose_next(&mut s, me);
    draw_budget(&mut s);
    if next == me {
        return;
    }
    s.cur = next;
    s.switches += 1;
    s.hash = mix(s.hash, next as u64);
    CV[next].notify_one();
    while s.cur != me {
        s = CV[me].wait(s).unwrap_or_else(|e| e.into_inner());
    }
}

/// Whether the library's types may cross threads is judged elsewhere (C15),
/// not demanded here. Only one thread runs at a time, handed over by a lock.
struct Body<'a>(Box<dyn FnOnce() + 'a>);
unsafe impl Send for Body<'_> {}
impl Body<'_> {
    fn call(self) {
        (self.0)()
    }
}

/// Runs the bodies as simulated threads; returns (switches, schedule hash).
pub fn run(bodies: Vec<Box<dyn FnOnce() + '_>>, max_budget: u64) -> (u64, u64) {
    let n = bodies.len();
    assert!(n < ctx::MAXT);
    {
        let mut s = lock();
        *s = S { on: true, cur: usize::MAX, alive: vec![true; n], budget: 0, max_budget, switches: 0, hash: 7 };
    }
    std::thread::scope(|sc| {
        let mut handles = Vec::new();
        for (i, b) in bodies.into_iter().map(Body).enumerate() {
            handles.push(sc.spawn(move || {
                TID.with(|c| c.set(i + 1));
                {
                    let mut s = lock();
                    while s.cur != i {
                        s = CV[i].wait(s).unwrap_or_else(|e| e.into_inner());
                    }
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.call()));
                let mut s = lock();
                s.alive[i] = false;
                if s.alive.iter().any(|&a| a) {
                    let next = choose_next(&mut s, i);
                    draw_budget(&mut s);
                    s.cur = next;
                    s.hash = mix(s.hash, 1000 + next as u64);
                    CV[next].notify_one();
                }
                drop(s);
                if r.is_err() {
                    ctx::violate("HARNESS", "thread", "a simulated thread body panicked".into());
                }
            }));
        }
        let mut s = lock();
        draw_budget(&mut s);
        let first = ctx::idx(n);
        s.cur = first;
        CV[first].notify_one();
        drop(s);
        // The scope alone does not wait until the threads' own memory is freed.
        for h in handles {
            let _ = h.join();
        }
    });
    let mut s = lock();
    s.on = false;
    (s.switches, s.hash)
}
