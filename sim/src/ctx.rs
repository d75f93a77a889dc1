//! Per-run state of the simulation: tape, element registry, events, faults,
//! violations. Everything the library calls back into reports here.

use crate::sched;
use crate::tape::{mix, Tape};
use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum K {
    Clone,
    Const,
    AddAsg,
    SubAsg,
    Add,
    Sub,
    Mul,
    Div,
    Neg,
    Conj,
    Eq,
    Source,
    Cmp,
    Draw,
    Scalar,
    Alloc,
}
pub const NK: usize = 16;
pub const KNAMES: [&str; NK] = [
    "elem_clone", "elem_const", "elem_add_assign", "elem_sub_assign", "elem_add", "elem_sub",
    "elem_mul", "elem_div", "elem_neg", "elem_conj", "elem_eq", "source_call", "compare_call",
    "rng_draw", "scalar_arith", "alloc",
];
pub const M_ELEM: u32 = 0x7FF;
pub const M_SOURCE: u32 = 1 << K::Source as u32;
pub const M_CMP: u32 = 1 << K::Cmp as u32;
pub const M_DRAW: u32 = 1 << K::Draw as u32;
pub const M_SCALAR: u32 = 1 << K::Scalar as u32;
pub const M_ALLOC: u32 = 1 << K::Alloc as u32;
pub const M_CODE: u32 = M_ELEM | M_SOURCE | M_CMP | M_DRAW | M_SCALAR;

/// Payload of every injected failure.
#[derive(Debug)]
pub struct Injected(pub u64);
/// Payload used when a simulated run exceeds its step bound (livelock).
#[derive(Debug)]
pub struct Livelock;

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Default)]
pub struct Win {
    pub armed: Option<(u32, u64)>,
    pub ev: [u64; NK],
    pub fired: Option<u64>,
    pub after: u64,
    pub overflow: bool,
    pub steps: u64,
}
impl Win {
    pub fn count(&self, mask: u32) -> u64 {
        (0..NK).filter(|k| mask >> k & 1 == 1).map(|k| self.ev[k]).sum()
    }
}

pub const MAXT: usize = 8;

pub struct Ctx {
    pub tape: Tape,
    base: u64,
    regs: Vec<u8>,
    pub live: i64,
    pub viol: Vec<Viol>,
    pub ev: [u64; NK],
    pub fired: [u64; NK],
    pub serial: u64,
    pub hash: u64,
    pub log: Vec<String>,
    pub logging: bool,
    pub win: Vec<Win>,
    pub stats: BTreeMap<&'static str, u64>,
    pub draw_cap: u64,
}

static CTX: Mutex<Option<Ctx>> = Mutex::new(None);
static NEXT_BASE: Mutex<u64> = Mutex::new(1);

thread_local! {
    pub static IN_LIB: Cell<u32> = const { Cell::new(0) };
    pub static TID: Cell<usize> = const { Cell::new(0) };
}

pub struct G(MutexGuard<'static, Option<Ctx>>);
impl std::ops::Deref for G {
    type Target = Ctx;
    fn deref(&self) -> &Ctx {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for G {
    fn deref_mut(&mut self) -> &mut Ctx {
        self.0.as_mut().unwrap()
    }
}
pub fn ctx() -> G {
    G(CTX.lock().unwrap_or_else(|e| e.into_inner()))
}

pub fn start(tape: Tape, logging: bool) {
    let mut base = NEXT_BASE.lock().unwrap_or_else(|e| e.into_inner());
    let mut g = CTX.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(old) = g.as_ref() {
        *base += old.regs.len() as u64 + 1;
    }
    *g = Some(Ctx {
        tape,
        base: *base,
        regs: Vec::new(),
        live: 0,
        viol: Vec::new(),
        ev: [0; NK],
        fired: [0; NK],
        serial: 0,
        hash: 0x1234_5678,
        log: Vec::new(),
        logging,
        win: vec![Win::default(); MAXT],
        stats: BTreeMap::new(),
        draw_cap: u64::MAX,
    });
}

pub struct RunOut {
    pub viol: Vec<Viol>,
    /// Violations that are listed as known findings.
    pub known: Vec<Viol>,
    pub ev: [u64; NK],
    pub fired: [u64; NK],
    pub hash: u64,
    pub log: Vec<String>,
    pub stats: BTreeMap<&'static str, u64>,
    pub tape: Vec<u64>,
}

pub fn finish() -> RunOut {
    let mut g = ctx();
    if g.live != 0 {
        let n = g.live;
        g.viol.push(Viol {
            prop: "C13",
            class: "leak".into(),
            msg: format!("{n} element values were never destroyed"),
        });
    }
    RunOut {
        viol: std::mem::take(&mut g.viol),
        known: Vec::new(),
        ev: g.ev,
        fired: g.fired,
        hash: g.hash,
        log: std::mem::take(&mut g.log),
        stats: std::mem::take(&mut g.stats),
        tape: std::mem::take(&mut g.tape.log),
    }
}

// ---- tape helpers -------------------------------------------------------

pub fn below(n: u64) -> u64 {
    ctx().tape.below(n)
}
pub fn idx(n: usize) -> usize {
    below(n as u64) as usize
}
/// True with probability num/den; false is the simple choice.
pub fn chance(num: u64, den: u64) -> bool {
    below(den) >= den - num
}
pub fn word() -> u64 {
    below(u64::MAX)
}
/// Weighted pick; index 0 is the simple choice.
pub fn weighted(w: &[u64]) -> usize {
    let mut x = below(w.iter().sum());
    for (i, &v) in w.iter().enumerate() {
        if x < v {
            return i;
        }
        x -= v;
    }
    unreachable!()
}
pub fn range(lo: usize, hi_incl: usize) -> usize {
    lo + idx(hi_incl - lo + 1)
}

pub fn note(f: impl FnOnce() -> String) {
    let logging = ctx().logging;
    if logging {
        let s = f();
        ctx().log.push(s);
    }
}
pub fn stat(name: &'static str, n: u64) {
    *ctx().stats.entry(name).or_insert(0) += n;
}
pub fn hash_in(v: u64) {
    let mut g = ctx();
    g.hash = mix(g.hash, v);
}

pub fn violate(prop: &'static str, class: &str, msg: String) {
    let mut g = ctx();
    if g.logging {
        g.log.push(format!("VIOLATION {prop} {class}: {msg}"));
    }
    if g.viol.len() < 50 {
        g.viol.push(Viol { prop, class: class.to_string(), msg });
    }
}
pub fn has_viol() -> bool {
    !ctx().viol.is_empty()
}

// ---- element registry ---------------------------------------------------

pub fn reg_new() -> u64 {
    let mut g = ctx();
    g.regs.push(1);
    g.live += 1;
    g.base + g.regs.len() as u64 - 1
}
pub fn reg_state(id: u64) -> u8 {
    let g = ctx();
    if id < g.base {
        return 3;
    }
    g.regs.get((id - g.base) as usize).copied().unwrap_or(0)
}
pub fn reg_drop(id: u64) {
    let mut g = ctx();
    if id < g.base {
        return; // leaked by an earlier run, already reported there
    }
    let i = (id - g.base) as usize;
    match g.regs.get(i).copied() {
        Some(1) => {
            g.regs[i] = 2;
            g.live -= 1;
        }
        Some(_) => {
            drop(g);
            violate("C13", "double-drop", format!("element #{i} destroyed twice"));
        }
        None => {
            drop(g);
            violate("C13", "garbage", "destroyed something that never was an element".into());
        }
    }
}

// ---- events and faults --------------------------------------------------

pub struct LibGuard(u32);
impl LibGuard {
    /// True unless the harness only inspects a value.
    pub fn counted(&self) -> bool {
        self.0 == 1
    }
}
impl Drop for LibGuard {
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(self.0));
    }
}
pub fn set_in_lib(v: u32) -> LibGuard {
    LibGuard(IN_LIB.with(|c| c.replace(v)))
}
/// Runs library code: callbacks inside are events, allocations are seams.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _g = set_in_lib(1);
    f()
}
pub fn tid() -> usize {
    TID.with(|c| c.get())
}

/// Counts an event and decides whether it fails. Returns the fault serial.
pub fn event_raw(k: K) -> Option<u64> {
    sched::yield_point();
    let t = tid();
    let mut g = ctx();
    let g = &mut *g;
    g.ev[k as usize] += 1;
    g.hash = mix(g.hash, (k as u64) << 8 | t as u64);
    let w = &mut g.win[t];
    w.ev[k as usize] += 1;
    w.steps += 1;
    if w.steps > 30_000_000 && k != K::Alloc {
        return Some(u64::MAX);
    }
    if (w.fired.is_some() || w.overflow) && !matches!(k, K::Alloc | K::Clone | K::Const | K::Eq) {
        w.after += 1;
    }
    if let Some((mask, left)) = w.armed {
        if mask >> (k as u32) & 1 == 1 {
            if left == 0 {
                w.armed = None;
                g.serial += 1;
                w.fired = Some(g.serial);
                g.fired[k as usize] += 1;
                g.hash = mix(g.hash, 0xFA17);
                return Some(g.serial);
            }
            w.armed = Some((mask, left - 1));
        }
    }
    if k == K::Draw {
        if g.draw_cap == 0 {
            return Some(u64::MAX);
        }
        g.draw_cap -= 1;
    }
    None
}

/// Runs library code to inspect a value: no events and no faults, but what it
/// allocates is the library's memory.
pub fn inspect<R>(f: impl FnOnce() -> R) -> R {
    let _g = set_in_lib(2);
    f()
}

/// To be called at the start of every callback; a no-op when the harness
/// itself (and not the library) is the caller.
pub fn event(k: K) -> Option<LibGuard> {
    match IN_LIB.with(|c| c.get()) {
        0 => return None,
        2 => return Some(set_in_lib(0)),
        _ => {}
    }
    let g = set_in_lib(0);
    match event_raw(k) {
        None => Some(g),
        Some(u64::MAX) => resume_unwind(Box::new(Livelock)),
        Some(s) => resume_unwind(Box::new(Injected(s))),
    }
}

/// A bounded element is about to overflow (a failure the library's own
/// operands cause, not an injected one).
pub fn overflowed() {
    let t = tid();
    let mut g = ctx();
    g.win[t].overflow = true;
    *g.stats.entry("element overflows").or_insert(0) += 1;
}

/// Opens a fault window on the current simulated thread.
pub fn arm(plan: Option<(u32, u64)>) {
    let t = tid();
    ctx().win[t] = Win { armed: plan, ..Win::default() };
}
/// Closes it and returns what happened inside.
pub fn disarm() -> Win {
    let t = tid();
    std::mem::take(&mut ctx().win[t])
}

#[derive(Debug)]
pub enum Out<R> {
    Ok(R),
    Injected(u64),
    Overflow,
    Livelock,
    Panic(String),
}

pub fn attempt<R>(f: impl FnOnce() -> R) -> Out<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Out::Ok(r),
        Err(p) => classify(p),
    }
}
fn classify<R>(p: Box<dyn Any + Send>) -> Out<R> {
    if let Some(i) = p.downcast_ref::<Injected>() {
        return Out::Injected(i.0);
    }
    if p.downcast_ref::<crate::elem::Overflow>().is_some() {
        return Out::Overflow;
    }
    if p.downcast_ref::<Livelock>().is_some() {
        return Out::Livelock;
    }
    if let Some(s) = p.downcast_ref::<String>() {
        return Out::Panic(s.clone());
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        return Out::Panic(s.to_string());
    }
    Out::Panic("<unknown payload>".into())
}
