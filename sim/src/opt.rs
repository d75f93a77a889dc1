//! The optimizer under simulation: simulated generators, scalars and
//! comparison callbacks, and the checkers over recorded runs.

use crate::alloc::LIB_BALANCE;
use crate::ctx::*;
use crate::elem::{madd, mdiv, mint, mmul, msub, P as PRIME};
use crate::sched;
use crate::store::why;
use crate::tape::{mix, Prng};
use magnesia::optimize::differential_evolution;
use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformSampler};
use rand::{Rng, RngCore};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::ops::{Add, Mul, Sub};

// ---- simulated random generator -----------------------------------------

#[derive(Clone)]
pub struct SimRng {
    r: Prng,
    pub n: u64,
    last: u64,
    /// Draws `start .. start+len` repeat the word before them.
    stalls: Vec<(u64, u64)>,
    /// Draws replaced by a fixed (extreme) word.
    extreme: Vec<(u64, u64)>,
    pub log: Option<Vec<u64>>,
}
pub const EXTREME: [u64; 8] =
    [0, u64::MAX, 1 << 63, (1 << 63) - 1, 1, u64::MAX << 11, 0xFFFF_FFFF, 0xFFFF_FFFF_0000_0000];

impl SimRng {
    pub fn fair(seed: u64) -> SimRng {
        SimRng { r: Prng::new(seed), n: 0, last: 0x9E37_79B9_7F4A_7C15, stalls: vec![], extreme: vec![], log: None }
    }
    /// With faults placed somewhere in the first `span` draws.
    pub fn pick(span: u64, stalls: bool, extremes: bool) -> SimRng {
        let mut s = SimRng::fair(word());
        if stalls {
            for _ in 0..idx(4) {
                let start = below(span + 1);
                let len = 1 + match weighted(&[3, 2, 1]) {
                    0 => below(8),
                    1 => below(100),
                    _ => below(3000),
                };
                s.stalls.push((start, len));
            }
        }
        if extremes {
            for _ in 0..[0, 1, 3, 12][idx(4)] {
                s.extreme.push((below(span + 1), EXTREME[idx(EXTREME.len())]));
            }
        }
        s
    }
    pub fn stalled(&self) -> u64 {
        self.stalls.iter().map(|s| s.1).sum::<u64>() + self.extreme.len() as u64
    }
    pub fn shift_stalls(&mut self, by: u64) {
        for s in self.stalls.iter_mut() {
            s.0 += by;
        }
    }
    fn word(&mut self) -> u64 {
        let _g = event(K::Draw);
        let n = self.n;
        self.n += 1;
        let mut w = self.r.next();
        if let Some(e) = self.extreme.iter().find(|e| e.0 == n) {
            w = e.1;
            if _g.is_some() {
                stat("fault: generator extreme word", 1);
            }
        }
        if self.stalls.iter().any(|s| n >= s.0 && n - s.0 < s.1) {
            w = self.last;
            if _g.is_some() {
                stat("fault: generator stalled draw", 1);
            }
        }
        self.last = w;
        if let Some(l) = &mut self.log {
            l.push(w);
        }
        w
    }
}
impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        (self.word() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.word()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.word().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

// ---- scalars ------------------------------------------------------------

/// A scalar with an exact part (in Z_p: identities hold exactly whatever the
/// order of evaluation) and an approximate part (order and range checks).
#[derive(Clone, Copy, Debug)]
pub struct Zx<const ID: bool> {
    pub z: u64,
    pub a: f64,
}
pub type Sx = Zx<false>;
/// The exact part of a starting coordinate encodes which draw of its
/// dimension it is, so that donors can be read off trial vectors directly.
pub type Ix = Zx<true>;
impl<const ID: bool> PartialEq for Zx<ID> {
    fn eq(&self, o: &Self) -> bool {
        self.a == o.a
    }
}
impl<const ID: bool> PartialOrd for Zx<ID> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.a.partial_cmp(&o.a)
    }
}
macro_rules! sop {
    ($t:ident, $f:ident, $z:expr, $op:tt) => {
        impl<const ID: bool> $t for Zx<ID> {
            type Output = Self;
            fn $f(self, r: Self) -> Self {
                let _g = event(K::Scalar);
                Zx { z: $z(self.z, r.z), a: self.a $op r.a }
            }
        }
    };
}
sop!(Add, add, madd, +);
sop!(Sub, sub, msub, -);
sop!(Mul, mul, mmul, *);
impl<const ID: bool> From<f32> for Zx<ID> {
    fn from(x: f32) -> Self {
        Zx { z: mint((x * 4096.0) as i64), a: x as f64 }
    }
}
impl<const ID: bool> From<i8> for Zx<ID> {
    fn from(x: i8) -> Self {
        Zx { z: mint(x as i64), a: x as f64 }
    }
}
thread_local! {
    /// Coordinates drawn so far in dimension 0 and 1 (for `Ix`).
    static IDS: Cell<[u64; 2]> = const { Cell::new([0; 2]) };
    /// Exact parts of the coordinates drawn, if space was reserved.
    static DRAWN: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}
pub struct ZxUniform<const ID: bool> {
    lo: Zx<ID>,
    hi: Zx<ID>,
    incl: bool,
}
impl<const ID: bool> UniformSampler for ZxUniform<ID> {
    type X = Zx<ID>;
    fn new<B1: SampleBorrow<Zx<ID>>, B2: SampleBorrow<Zx<ID>>>(l: B1, h: B2) -> Self {
        ZxUniform { lo: *l.borrow(), hi: *h.borrow(), incl: false }
    }
    fn new_inclusive<B1: SampleBorrow<Zx<ID>>, B2: SampleBorrow<Zx<ID>>>(l: B1, h: B2) -> Self {
        ZxUniform { lo: *l.borrow(), hi: *h.borrow(), incl: true }
    }
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Zx<ID> {
        let w = rng.next_u64();
        let u = w % PRIME;
        DRAWN.with(|d| {
            if let Ok(mut d) = d.try_borrow_mut() {
                if d.capacity() > d.len() {
                    d.push(madd(self.lo.z, mmul(msub(self.hi.z, self.lo.z), u)));
                }
            }
        });
        let z = if ID {
            let d = self.lo.z as usize & 1;
            let mut ids = IDS.get();
            let k = ids[d];
            ids[d] += 1;
            IDS.set(ids);
            if d == 0 { k } else { mmul(k, k) }
        } else {
            madd(self.lo.z, mmul(msub(self.hi.z, self.lo.z), u))
        };
        let top = (1u64 << 53) - 1;
        let f = (w >> 11) as f64 / if self.incl { top as f64 } else { (1u64 << 53) as f64 };
        let mut a = self.lo.a + (self.hi.a - self.lo.a) * f;
        if !self.incl && a >= self.hi.a {
            a = f64::from_bits(self.hi.a.to_bits() - 1).max(self.lo.a);
            if self.hi.a <= 0.0 {
                a = self.lo.a;
            }
        }
        Zx { z, a }
    }
}
impl<const ID: bool> SampleUniform for Zx<ID> {
    type Sampler = ZxUniform<ID>;
}

pub trait Sc:
    Copy + PartialOrd + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + SampleUniform
    + From<f32> + From<i8> + Send + Sync + std::fmt::Debug + 'static
{
    const NAME: &'static str;
    const EXACT: bool;
    fn bits(self) -> (u64, u64);
    fn a(self) -> f64;
    fn mk(a: f64, salt: u64) -> Self;
    /// Bounds of plus and minus this are as far apart as they can be.
    const HALF: f64 = 1e30;
    /// Is `self` the value `a + (b - c) * f` (exactly, or up to rounding)?
    fn is_mutant(self, a: Self, b: Self, c: Self, f: Self) -> bool;
    /// Does the exact part of a fresh coordinate come from this word?
    fn fresh(self, _lo: Self, _hi: Self) -> Option<u64> {
        None
    }
}
impl<const ID: bool> Sc for Zx<ID> {
    const NAME: &'static str = if ID { "Ix" } else { "Sx" };
    const EXACT: bool = true;
    fn bits(self) -> (u64, u64) {
        (self.z, self.a.to_bits())
    }
    fn a(self) -> f64 {
        self.a
    }
    fn mk(a: f64, salt: u64) -> Self {
        Zx { z: if ID { salt % PRIME } else { mix(salt, a.to_bits()) % PRIME }, a }
    }
    fn is_mutant(self, a: Self, b: Self, c: Self, f: Self) -> bool {
        self.z == madd(a.z, mmul(msub(b.z, c.z), f.z))
    }
    fn fresh(self, lo: Self, hi: Self) -> Option<u64> {
        Some(mdiv(msub(self.z, lo.z), msub(hi.z, lo.z)))
    }
}
macro_rules! fsc {
    ($t:ident, $eps:expr) => {
        impl Sc for $t {
            const NAME: &'static str = stringify!($t);
            const EXACT: bool = false;
            const HALF: f64 = $t::MAX as f64 / 2.25;
            fn bits(self) -> (u64, u64) {
                (self.to_bits() as u64, 0)
            }
            fn a(self) -> f64 {
                self as f64
            }
            fn mk(a: f64, _: u64) -> $t {
                a as $t
            }
            fn is_mutant(self, a: $t, b: $t, c: $t, f: $t) -> bool {
                let (x, a, b, c, f) = (self as f64, a as f64, b as f64, c as f64, f as f64);
                let m = a + (b - c) * f;
                // With infinities around, the outcome does not depend on the
                // order of evaluation unless something else overflows.
                let wild = [a, b, c].iter().any(|v| !v.is_finite());
                let calm = [a, b, c].iter().all(|v| !v.is_finite() || v.abs() < $t::MAX as f64 / 16.0);
                if wild && calm || [a, b, c].iter().any(|v| v.is_nan()) {
                    return x == m || (x.is_nan() && m.is_nan());
                }
                let scale = a.abs() + (b.abs() + c.abs()) * f.abs() + x.abs();
                // Where values overflow the order of evaluation matters.
                if !(a.abs() + b.abs() + c.abs() < $t::MAX as f64 / 16.0) {
                    return true;
                }
                x.to_bits() == m.to_bits() || (x - m).abs() <= $eps * scale || (x.is_nan() && m.is_nan())
            }
        }
    };
}
fsc!(f64, 1e-14);
fsc!(f32, 1e-5);

pub type Cand<S, const N: usize> = [S; N];
type Bits = Vec<(u64, u64)>;
fn bits<S: Sc, const N: usize>(c: &Cand<S, N>) -> Bits {
    c.iter().map(|x| x.bits()).collect()
}
fn same<S: Sc, const N: usize>(a: &Cand<S, N>, b: &Cand<S, N>) -> bool {
    a.iter().zip(b).all(|(x, y)| x.bits() == y.bits())
}
fn hash<S: Sc, const N: usize>(c: &Cand<S, N>) -> u64 {
    c.iter().fold(3, |h, x| mix(mix(h, x.bits().0), x.bits().1))
}
fn showc<S: Sc, const N: usize>(c: &Cand<S, N>) -> String {
    format!("{:?}", c.iter().map(|x| x.a()).collect::<Vec<_>>())
}

// ---- configuration ------------------------------------------------------

#[derive(Clone)]
pub struct Cfg<S: Sc, const N: usize> {
    pub bounds: [(S, S); N],
    pub pop: usize,
    pub cr: f32,
    pub f: S,
    pub iters: usize,
}
impl<S: Sc, const N: usize> Cfg<S, N> {
    pub fn show(&self) -> String {
        format!("T={} N={N} population={} CR={} F={} iters={}", S::NAME, self.pop, self.cr, self.f.a(), self.iters)
    }
    pub fn normal_draws(&self) -> u64 {
        (self.pop * N + self.iters * (N + 12)) as u64
    }
    pub fn draw_cap(&self, stalled: u64) -> u64 {
        64 * self.normal_draws() + 20_000 + 2 * stalled
    }
    pub fn pick(size: Size) -> Self {
        // Many dimensions come with small populations only.
        let size = if N > 10 { Size::Small } else { size };
        let rare = match size {
            Size::Huge => weighted(&[40_000, 10, 10, 1, 1]),
            Size::Wide => weighted(&[2_000, 1]),
            _ => 0,
        };
        let pop = match rare {
            0 | 2 => match weighted(&[20, 6, 3, if size == Size::Small { 0 } else { 1 }]) {
                0 => range(4, 9),
                _ if N > 10 => range(4, 24),
                1 => range(10, 24),
                2 => range(25, 40),
                _ => [64, 65, 100, 127, 128, 129, 255, 256, 257][idx(9)],
            },
            1 => match idx(2) {
                0 => range(258, 1100),
                _ => [258, 300, 511, 512, 513, 1000, 1023, 1024, 1025][idx(9)],
            },
            3 => match idx(2) {
                0 => range(65_530, 65_540),
                _ => range(20_000, 140_000),
            },
            _ => range(4, 9),
        };
        let cr = match weighted(&[4, 4, 4, 1, 8]) {
            0 => 0.9,
            1 => 0.0,
            2 => 1.0,
            3 => [1e-7, 1.0 - f32::EPSILON, f32::MIN_POSITIVE, 0.5][idx(4)],
            _ => below(1 << 20) as f32 / (1 << 20) as f32,
        };
        let f = match weighted(&[3, 1, 1, 1, 3]) {
            0 => 0.8,
            1 => 0.0,
            2 => 2.0,
            3 => 1.0,
            _ => below(1 << 20) as f64 / (1 << 19) as f64,
        };
        let iters = match rare {
            2 => 3_000 + idx(6_000),
            3 => pop + idx(pop),
            4 => 65_530 + idx(80_000),
            _ if N > 10 => [0, 1, pop, pop + idx(pop), 2 * pop][idx(5)],
            _ => match weighted(&[3, 1, 2, 3, 1]) {
            0 => pop * range(1, 4) + idx(pop),
            1 => 0,
            2 => idx(pop + 1),
            3 => pop * range(4, 12) + idx(pop),
            _ => [1, pop - 1, pop, pop + 1, 2 * pop, 3 * pop - 1][idx(6)],
            },
        };
        let salt = word();
        let bounds = std::array::from_fn(|d| {
            let (lo, hi) = pick_interval();
            (S::mk(lo, mix(salt, 2 * d as u64)), S::mk(hi, mix(salt, 2 * d as u64 + 1)))
        });
        Cfg { bounds, pop, cr, f: S::mk(f, mix(salt, 99)), iters }
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    /// Up to 40 members.
    Small,
    /// Up to 257, rarely 1100 members.
    Wide,
    /// Rarely up to 140000 members or iterations.
    Huge,
}
fn pick_interval() -> (f64, f64) {
    match weighted(&[6, 4, 4, 2, 2, 2, 1, 1]) {
        0 => (-5.0, 5.0),
        1 => (0.0, 1.0),
        2 => {
            let lo = range(0, 200) as f64 - 100.0;
            (lo, lo + 1.0 + idx(50) as f64)
        }
        3 => {
            let lo = range(0, 20) as f64 - 10.0;
            (lo, lo + 1e-3)
        }
        4 => (1e15, 1e15 + 1e9),
        5 => (-1e30, 1e30),
        6 => (-2e-3, -1e-3),
        _ => (-1e-20, 3e-20),
    }
}

/// Consistent comparison callbacks: strict weak orders given by a key.
#[derive(Clone, Debug)]
pub enum Order {
    Sphere(u64),
    CoarseSphere(u64),
    Hash(u64),
    CoarseHash(u64),
    AllTied,
    First(bool),
    /// The candidate that is shown `m`-th for the first time beats all others.
    Spike(u64),
}
impl Order {
    pub fn pick(iters: usize, pop: usize) -> Order {
        match weighted(&[4, 2, 4, 3, 1, 1, 4]) {
            0 => Order::Sphere(word()),
            1 => Order::CoarseSphere(word()),
            2 => Order::Hash(word()),
            3 => Order::CoarseHash(word()),
            4 => Order::AllTied,
            5 => Order::First(chance(1, 2)),
            _ => Order::Spike(below((iters + pop) as u64)),
        }
    }
}
pub struct Orderer<S: Sc, const N: usize> {
    pub o: Order,
    seen: HashMap<Bits, u64>,
    spike: Option<Bits>,
    centre: [f64; N],
    pub bounds: [(S, S); N],
}
fn fkey(x: f64) -> u64 {
    let x = if x.is_nan() { f64::INFINITY } else { x + 0.0 };
    let b = x.to_bits();
    if b >> 63 == 1 {
        !b
    } else {
        b | 1 << 63
    }
}
impl<S: Sc, const N: usize> Orderer<S, N> {
    pub fn new(o: Order, c: &Cfg<S, N>) -> Self {
        let seed = match o {
            Order::Sphere(s) | Order::CoarseSphere(s) => s,
            _ => 1,
        };
        let mut r = Prng::new(seed);
        let centre = std::array::from_fn(|d| {
            let (lo, hi) = (c.bounds[d].0.a(), c.bounds[d].1.a());
            lo + (hi - lo) * r.unit()
        });
        Orderer { o, seen: HashMap::new(), spike: None, centre, bounds: c.bounds }
    }
    fn show(&mut self, c: &Cand<S, N>) {
        if let Order::Spike(m) = self.o {
            let b = bits(c);
            if !self.seen.contains_key(&b) {
                let n = self.seen.len() as u64;
                if n == m {
                    self.spike = Some(b.clone());
                }
                self.seen.insert(b, n);
            }
        }
    }
    pub fn key(&self, c: &Cand<S, N>) -> u64 {
        let sphere = || -> f64 {
            (0..N)
                .map(|d| {
                    let w = self.bounds[d].1.a() - self.bounds[d].0.a();
                    let t = (c[d].a() - self.centre[d]) / w;
                    t * t
                })
                .sum()
        };
        match &self.o {
            Order::Sphere(_) => fkey(sphere()),
            Order::CoarseSphere(_) => fkey((sphere() * 8.0).floor()),
            Order::Hash(s) => mix(*s, hash(c)),
            Order::CoarseHash(s) => mix(*s, hash(c)) % 5,
            Order::AllTied => 0,
            Order::First(up) => {
                let k = fkey(c[0].a());
                if *up {
                    k
                } else {
                    !k
                }
            }
            Order::Spike(_) => (self.spike.as_ref() != Some(&bits(c))) as u64,
        }
    }
    pub fn less(&mut self, a: &Cand<S, N>, b: &Cand<S, N>) -> bool {
        self.show(a);
        self.show(b);
        self.key(a) < self.key(b)
    }
}

/// Arbitrary, possibly inconsistent answers; a pure function of the call
/// number and the arguments so that runs can be repeated.
#[derive(Clone, Debug)]
pub enum Answers {
    Random(u64),
    True,
    False,
    Alternate,
    NanHoles(u64),
    Inverted(u64),
    LyingPrefix(u64, u64),
    Honest(u64),
}
impl Answers {
    pub fn pick() -> Answers {
        match weighted(&[4, 1, 1, 1, 2, 2, 2, 3]) {
            0 => Answers::Random(word()),
            1 => Answers::True,
            2 => Answers::False,
            3 => Answers::Alternate,
            4 => Answers::NanHoles(word()),
            5 => Answers::Inverted(word()),
            6 => Answers::LyingPrefix(word(), below(60)),
            _ => Answers::Honest(word()),
        }
    }
    /// Counts answers that follow no order as injected faults.
    pub fn count(&self, calls: usize) {
        match *self {
            Answers::Inverted(_) | Answers::Honest(_) => {}
            Answers::LyingPrefix(_, n) => stat("fault: lying answer", (calls as u64).min(n)),
            Answers::NanHoles(_) => stat("fault: answer of an order with NaN holes", calls as u64),
            _ => stat("fault: inconsistent answer", calls as u64),
        }
    }
    pub fn answer<S: Sc, const N: usize>(&self, call: u64, a: &Cand<S, N>, b: &Cand<S, N>) -> bool {
        let k = |s: u64, c: &Cand<S, N>| mix(s, hash(c));
        match *self {
            Answers::Random(s) => mix(s, call) & 1 == 1,
            Answers::True => true,
            Answers::False => false,
            Answers::Alternate => call & 1 == 0,
            Answers::NanHoles(s) => {
                let f = |c: &Cand<S, N>| if k(s, c) % 3 == 0 { f64::NAN } else { (k(s, c) >> 8) as f64 };
                f(a) < f(b)
            }
            Answers::Inverted(s) => k(s, a) > k(s, b),
            Answers::LyingPrefix(s, n) => (k(s, a) < k(s, b)) != (call < n),
            Answers::Honest(s) => k(s, a) < k(s, b),
        }
    }
}

// ---- recorded runs ------------------------------------------------------

pub struct Rec<S: Sc, const N: usize> {
    pub hist: Vec<(Cand<S, N>, Cand<S, N>, bool)>,
    pub out: Out<Cand<S, N>>,
    pub draws: u64,
    /// Draws made before the first comparison.
    pub first_cmp_draws: u64,
    pub balance: i64,
    pub win: Win,
}

/// One optimizer run on the current simulated thread. `inside` is called
/// within every comparison (nested runs), `answer` decides it.
pub fn run_opt<S: Sc, const N: usize>(
    c: &Cfg<S, N>,
    rng: &mut SimRng,
    plan: Option<(u32, u64)>,
    mut answer: impl FnMut(u64, &Cand<S, N>, &Cand<S, N>) -> bool,
) -> Rec<S, N> {
    // Reserved up front so that recording never allocates inside callbacks
    // with a size that depends on the run.
    let hist = RefCell::new(Vec::with_capacity(c.iters + c.pop + 8));
    let start = rng.n;
    let draws_at_first = RefCell::new(None);
    let bal0 = LIB_BALANCE.with(|b| b.get());
    arm(plan);
    let out = attempt(|| {
        lib(|| {
            differential_evolution(&c.bounds, c.pop, c.cr, c.f, c.iters, rng, |a: &Cand<S, N>, b: &Cand<S, N>| {
                let _g = event(K::Cmp);
                let mut h = hist.borrow_mut();
                let n = h.len() as u64;
                drop(h);
                if n == 0 && draws_at_first.borrow().is_none() {
                    *draws_at_first.borrow_mut() = Some(ctx().win[tid()].ev[K::Draw as usize]);
                }
                let r = answer(n, a, b);
                h = hist.borrow_mut();
                if h.len() < c.iters + c.pop + 8 {
                    h.push((*a, *b, r));
                }
                r
            })
        })
    });
    let win = disarm();
    let balance = LIB_BALANCE.with(|b| b.get()) - bal0;
    let draws = rng.n - start;
    let first_cmp_draws = draws_at_first.into_inner().unwrap_or(draws);
    Rec { hist: hist.into_inner(), out, draws, first_cmp_draws, balance, win }
}

// ---- checkers -----------------------------------------------------------

/// C02: replays the record slot by slot. Returns the starting members in
/// slot order (all of them if the record is sound).
pub fn check_replay<S: Sc, const N: usize>(c: &Cfg<S, N>, rec: &Rec<S, N>) -> Option<Vec<Cand<S, N>>> {
    let Out::Ok(res) = &rec.out else { return None };
    let p = c.pop;
    let t_max = c.iters.min(rec.hist.len());
    let bad = |class: &str, m: String| -> Option<Vec<Cand<S, N>>> {
        violate("C02", class, format!("{}: {m}", c.show()));
        None
    };
    let mut init: Vec<Cand<S, N>> = rec.hist[..t_max.min(p)].iter().map(|h| h.1).collect();
    let mut cur = init.clone();
    let mut done = vec![false; p];
    for (t, (x, m, ans)) in rec.hist[..t_max].iter().enumerate() {
        if t % p == 0 {
            done = vec![false; p];
        }
        let want = t % p;
        let s = if !done[want] && same(&cur[want], m) {
            want
        } else {
            match (0..cur.len()).find(|&s| !done[s] && same(&cur[s], m)) {
                Some(s) => s,
                None => {
                    return bad("challenge", format!(
                        "trial {t} was compared with {}, which is not a member still to be challenged in this sweep",
                        showc(m)
                    ))
                }
            }
        };
        done[s] = true;
        if *ans {
            cur[s] = *x;
        }
    }
    let mut alive: HashMap<Bits, i64> = HashMap::new();
    for m in &cur {
        *alive.entry(bits(m)).or_insert(0) += 1;
    }
    let mut unknown = p - cur.len();
    let mut left = p;
    for (k, (a, b, ans)) in rec.hist[t_max..].iter().enumerate() {
        for v in [a, b] {
            let e = alive.entry(bits(v)).or_insert(0);
            if *e > 0 {
                *e -= 1;
            } else if unknown > 0 {
                unknown -= 1;
                init.push(*v);
            } else {
                return bad("selection", format!(
                    "selection comparison {k} used {}, which is not a surviving member (or stands for two)", showc(v)
                ));
            }
        }
        let w = if *ans { a } else { b };
        *alive.entry(bits(w)).or_insert(0) += 1;
        left -= 1;
        if left == 0 {
            return bad("selection", "more selection comparisons than members to eliminate".into());
        }
    }
    if left != 1 {
        return bad("selection", format!("{left} members were never eliminated"));
    }
    if alive.get(&bits(res)).copied().unwrap_or(0) != 1 {
        let s: Vec<_> = alive.iter().filter(|e| *e.1 > 0).map(|e| format!("{:?}", e.0)).collect();
        return bad("result", format!("returned {} but the only survivor is {}", showc(res), s.join(" ")));
    }
    Some(init)
}

pub fn check_unbeaten<S: Sc, const N: usize>(c: &Cfg<S, N>, rec: &Rec<S, N>, o: &Orderer<S, N>) {
    let Out::Ok(res) = &rec.out else { return };
    let rk = o.key(res);
    let mut seen = false;
    for (x, m, _) in &rec.hist {
        for v in [x, m] {
            seen |= same(v, res);
            if o.key(v) < rk {
                violate("C01", "beaten", format!(
                    "{} order {:?}: returned {} although {} was seen and is preferred", c.show(), o.o, showc(res), showc(v)
                ));
                return;
            }
        }
    }
    // The answers must imply that the winner is unbeaten: if some candidate x
    // cannot be linked to it by answers, ranking x and everything the answers
    // place at or before x first gives an order with the same answers (hence
    // the same run) in which x beats the winner.
    let mut losers: HashMap<u64, Vec<u64>> = HashMap::with_capacity(2 * rec.hist.len());
    for (a, b, ans) in &rec.hist {
        let (w, l) = if *ans { (hash(a), hash(b)) } else { (hash(b), hash(a)) };
        losers.entry(w).or_default().push(l);
        losers.entry(l).or_default();
    }
    let mut todo = losers.remove(&hash(res)).unwrap_or_default();
    while let Some(v) = todo.pop() {
        todo.extend(losers.remove(&v).unwrap_or_default());
    }
    if !losers.is_empty() && seen {
        let v = rec.hist.iter().flat_map(|h| [&h.0, &h.1]).find(|v| losers.contains_key(&hash(v))).unwrap();
        violate("C01", "unproven", format!(
            "{} order {:?}: returned {}, but for all the answers tell {} may be preferred", c.show(), o.o, showc(res), showc(v)
        ));
        return;
    }
    // Every starting coordinate must have been shown. (Drawing more values
    // than needed would not be wrong, so that is not judged.)
    if DRAWN.with(|d| d.borrow().len()) == c.pop * N {
        let mut shown = std::collections::HashSet::with_capacity(2 * c.pop * N);
        for (x, m, _) in &rec.hist {
            shown.extend(x.iter().chain(m).map(|v| v.bits().0));
        }
        if let Some(k) = DRAWN.with(|d| d.borrow().iter().position(|z| !shown.contains(z))) {
            violate("C01", "never-compared", format!(
                "{} order {:?}: the starting point of the {k}-th drawn coordinate was never shown to the callback", c.show(), o.o
            ));
            return;
        }
    }
    if !seen {
        violate("C01", "unseen", format!("{}: returned {}, never shown to the callback", c.show(), showc(res)));
    }
}

pub struct Expl {
    pub triple: (usize, usize, usize),
    /// Bit n set: component n (below 64) comes from the mutant.
    pub mask: u64,
    /// The explanation is the only one.
    pub unique: bool,
}
/// Finds donors explaining a trial vector of slot `i`.
pub fn explain<S: Sc, const N: usize>(pop: &[Cand<S, N>], i: usize, x: &Cand<S, N>, c: &Cfg<S, N>) -> Option<Expl> {
    let p = pop.len();
    let eq = |n: usize| x[n].bits().0 == pop[i][n].bits().0;
    // A component that must come from the mutant if there is one.
    let must = (0..N).find(|&n| !eq(n));
    let mut found: Option<Expl> = None;
    let mut consider = |j: usize, k: usize, l: usize| -> bool {
        let mut mask = 0;
        let (mut any, mut own, mut differ, mut clear) = (false, false, 0, true);
        for n in 0..N {
            let e = eq(n);
            differ += !e as usize;
            if x[n].is_mutant(pop[j][n], pop[k][n], pop[l][n], c.f) {
                any = true;
                // A component equal to both leaves open where it came from.
                clear &= !e;
                if n < 64 {
                    mask |= 1 << n;
                }
            } else if !e {
                return false;
            } else {
                own = true;
            }
        }
        if !any || c.cr == 1.0 && own || c.cr == 0.0 && differ > 1 {
            return false;
        }
        match &mut found {
            Some(f) => f.unique = false,
            None => found = Some(Expl { triple: (j, k, l), mask, unique: clear }),
        }
        true
    };
    if S::EXACT && must.is_some() {
        let n = must.unwrap();
        let mut by: HashMap<u64, Vec<usize>> = HashMap::with_capacity(p);
        for j in 0..p {
            by.entry(pop[j][n].bits().0).or_default().push(j);
        }
        let fz = c.f.bits().0;
        for k in 0..p {
            for l in 0..p {
                if k == i || l == i || k == l {
                    continue;
                }
                let d = mmul(msub(pop[k][n].bits().0, pop[l][n].bits().0), fz);
                if let Some(js) = by.get(&msub(x[n].bits().0, d)) {
                    for &j in js {
                        if j != i && j != k && j != l {
                            consider(j, k, l);
                        }
                    }
                }
            }
        }
    } else {
        for j in 0..p {
            for k in 0..p {
                for l in 0..p {
                    if [j, k, l].contains(&i) || j == k || k == l || j == l {
                        continue;
                    }
                    consider(j, k, l);
                }
            }
        }
    }
    found
}

/// Calls `f(t, slot, population, trial)` for every trial of a sound record.
pub fn each_trial<S: Sc, const N: usize>(
    c: &Cfg<S, N>,
    rec: &Rec<S, N>,
    init: &[Cand<S, N>],
    mut f: impl FnMut(usize, usize, &[Cand<S, N>], &Cand<S, N>) -> bool,
) {
    let p = c.pop;
    let mut cur = init.to_vec();
    let mut done = vec![false; p];
    for (t, (x, m, ans)) in rec.hist[..c.iters.min(rec.hist.len())].iter().enumerate() {
        if t % p == 0 {
            done = vec![false; p];
        }
        let want = t % p;
        let s = if !done[want] && same(&cur[want], m) {
            want
        } else {
            match (0..p).find(|&s| !done[s] && same(&cur[s], m)) {
                Some(s) => s,
                None => return,
            }
        };
        done[s] = true;
        if !f(t, s, &cur, x) {
            return;
        }
        if *ans {
            cur[s] = *x;
        }
    }
}

pub fn check_rule<S: Sc, const N: usize>(c: &Cfg<S, N>, rec: &Rec<S, N>, init: &[Cand<S, N>]) {
    if init.len() != c.pop || c.pop > if S::EXACT { 1100 } else { 9 } {
        return;
    }
    // The search is quadratic in the population: sample trials of big ones.
    let stride = 1 + c.pop * c.pop / if c.pop > 257 { 700 } else { 1500 };
    each_trial(c, rec, init, |t, i, cur, x| {
        if t % stride != 0 {
            return true;
        }
        stat("trial vectors explained", 1);
        if explain(cur, i, x, c).is_none() {
            violate("C03", "unexplained", format!(
                "{}: trial {t} = {} for member {} is not a+(b-c)*F of three other distinct members with the required crossover",
                c.show(), showc(x), showc(&cur[i])
            ));
            return false;
        }
        true
    });
}

pub fn check_budget<S: Sc, const N: usize>(c: &Cfg<S, N>, rec: &Rec<S, N>) {
    match &rec.out {
        Out::Ok(_) => {
            let cmp = rec.win.ev[K::Cmp as usize];
            let want = (c.iters + c.pop - 1) as u64;
            if cmp != want {
                violate("C04", "budget", format!("{}: {cmp} comparison calls instead of {want}", c.show()));
            }
        }
        Out::Livelock => violate("C04", "livelock", format!(
            "{}: still running after {} draws", c.show(), rec.draws
        )),
        o => violate("C04", "no-result", format!("{}: ended in {}", c.show(), why(o))),
    }
}

/// C05 on the starting members (which must be known).
pub fn check_start<S: Sc, const N: usize>(c: &Cfg<S, N>, rec: &Rec<S, N>, init: &[Cand<S, N>], log: Option<&[u64]>) {
    if !matches!(rec.out, Out::Ok(_)) {
        return;
    }
    if init.len() != c.pop {
        violate("C05", "count", format!("{}: only {} starting members", c.show(), init.len()));
        return;
    }
    for (k, m) in init.iter().enumerate() {
        for d in 0..N {
            let (lo, hi) = c.bounds[d];
            if !(m[d] >= lo && m[d] < hi) {
                violate("C05", "bounds", format!(
                    "{}: coordinate {d} of starting member {k} is {:?}, outside [{:?}, {:?})", c.show(), m[d].a(), lo.a(), hi.a()
                ));
                return;
            }
        }
    }
    if let (true, Some(log)) = (S::EXACT, log) {
        let mut words: HashMap<u64, i64> = HashMap::new();
        for w in log {
            *words.entry(w % PRIME).or_insert(0) += 1;
        }
        for (k, m) in init.iter().enumerate() {
            for d in 0..N {
                let u = m[d].fresh(c.bounds[d].0, c.bounds[d].1).unwrap();
                let e = words.entry(u).or_insert(0);
                *e -= 1;
                if *e < 0 {
                    violate("C05", "not-fresh", format!(
                        "{}: coordinate {d} of starting member {k} is not a fresh draw of its own (copied or derived)", c.show()
                    ));
                    return;
                }
            }
        }
    } else if !S::EXACT {
        // Without faults in the generator no two coordinates of one
        // dimension coincide (up to rounding of very narrow intervals).
    }
}

// ---- scenarios ----------------------------------------------------------

macro_rules! dims {
    ($f:ident) => {{
        match weighted(&[400, 500, 400, 300, 200, 100, 100, 4, 3, 2, 1]) {
            0 => scalars!($f, 2),
            1 => scalars!($f, 1),
            2 => scalars!($f, 3),
            3 => scalars!($f, 4),
            4 => scalars!($f, 5),
            5 => scalars!($f, 6),
            6 => scalars!($f, 10),
            7 => $f::<Sx, 17>(),
            8 => $f::<Sx, 33>(),
            9 => $f::<Sx, 65>(),
            _ => $f::<Sx, 257>(),
        }
    }};
}
macro_rules! scalars {
    ($f:ident, $n:expr) => {{
        match weighted(&[5, 2, 1]) {
            0 => $f::<Sx, $n>(),
            1 => $f::<f64, $n>(),
            _ => $f::<f32, $n>(),
        }
    }};
}

fn start_run<S: Sc, const N: usize>(c: &Cfg<S, N>, rng: &SimRng) {
    note(|| format!("optimizer {} stalls {:?} extreme words {:?}", c.show(), rng.stalls, rng.extreme));
    note(|| format!("bounds {:?}", c.bounds.iter().map(|b| (b.0.a(), b.1.a())).collect::<Vec<_>>()));
    hash_in(c.pop as u64 * 1000 + N as u64);
    stat("optimizer runs", 1);
    ctx().draw_cap = c.draw_cap(rng.stalled());
}

/// C01: consistent orders.
pub fn unbeaten() {
    fn go<S: Sc, const N: usize>() {
        let c = Cfg::<S, N>::pick(Size::Huge);
        let mut rng = SimRng::pick(c.normal_draws(), true, chance(1, 2));
        start_run(&c, &rng);
        let mut o = Orderer::new(Order::pick(c.iters, c.pop), &c);
        note(|| format!("order {:?}", o.o));
        // Capacity for one more: too many draws must show.
        DRAWN.with(|d| *d.borrow_mut() = Vec::with_capacity(c.pop * N + 1));
        let rec = run_opt(&c, &mut rng, None, |_, a, b| o.less(a, b));
        match rec.out {
            Out::Ok(_) => check_unbeaten(&c, &rec, &o),
            ref e => violate("C01", "no-result", format!("{} ended in {}", c.show(), why(e))),
        }
    }
    dims!(go)
}

fn recorded<S: Sc, const N: usize>(size: Size) -> (Cfg<S, N>, Rec<S, N>, SimRng) {
    let mut c = Cfg::<S, N>::pick(size);
    if !S::EXACT && N <= 10 && chance(1, 8) {
        // Differences overflow, and infinities soon meet each other.
        let most = S::mk(S::HALF, 0);
        c.bounds = [(S::mk(-S::HALF, 0), most); N];
        c.pop = range(4, 6);
        c.iters = range(10, 60);
    }
    let c = c;
    let mut rng = SimRng::pick(c.normal_draws(), true, chance(1, 2));
    rng.log = Some(Vec::new());
    start_run(&c, &rng);
    let ans = Answers::pick();
    note(|| format!("answers {ans:?}"));
    let rec = run_opt(&c, &mut rng, None, |n, a, b| ans.answer(n, a, b));
    ans.count(rec.hist.len());
    note(|| format!("{} comparisons, {} draws, {}", rec.hist.len(), rec.draws, why(&rec.out)));
    (c, rec, rng)
}

/// C02 (and C04): arbitrary answers.
pub fn replayed() {
    fn go<S: Sc, const N: usize>() {
        let (c, rec, _) = recorded::<S, N>(Size::Huge);
        check_budget(&c, &rec);
        match rec.out {
            Out::Ok(_) => {
                check_replay(&c, &rec);
            }
            ref e => violate("C02", "no-result", format!("{} ended in {}", c.show(), why(e))),
        }
    }
    dims!(go)
}
/// C03: every trial vector is explained by donors.
pub fn explained() {
    fn go<S: Sc, const N: usize>() {
        let (c, rec, _) = recorded::<S, N>(Size::Wide);
        match rec.out {
            Out::Ok(_) => match check_replay(&c, &rec) {
                Some(init) => check_rule(&c, &rec, &init),
                // Without knowing the members the rule cannot be judged.
                None => stat("records without known members", 1),
            },
            ref e => violate("C03", "no-result", format!("{} ended in {}", c.show(), why(e))),
        }
    }
    dims!(go)
}

/// C05 with extreme words concentrated in the starting draws.
pub fn start_population() {
    fn go<S: Sc, const N: usize>() {
        let mut c = Cfg::<S, N>::pick(Size::Huge);
        c.iters = [c.pop, c.pop + 1, 0, c.pop / 2][idx(4)];
        let mut rng = SimRng::pick((c.pop * N) as u64, chance(1, 2), true);
        rng.log = Some(Vec::new());
        start_run(&c, &rng);
        let ans = Answers::pick();
        let rec = run_opt(&c, &mut rng, None, |n, a, b| ans.answer(n, a, b));
        ans.count(rec.hist.len());
        if let Some(init) = members(&c, &rec) {
            let log = rng.log.as_deref().map(|l| &l[..rec.first_cmp_draws as usize]);
            check_start(&c, &rec, &init, log);
        }
    }
    dims!(go)
}
/// Starting members without judging the record (for C05).
fn members<S: Sc, const N: usize>(c: &Cfg<S, N>, rec: &Rec<S, N>) -> Option<Vec<Cand<S, N>>> {
    match rec.out {
        Out::Ok(_) => {}
        ref e => {
            violate("C05", "no-result", format!("{} ended in {}", c.show(), why(e)));
            return None;
        }
    }
    check_replay(c, rec)
}

/// C04: heavy stalls, placed anywhere including inside index selection.
pub fn budget() {
    fn go<S: Sc, const N: usize>() {
        let mut c = Cfg::<S, N>::pick(Size::Huge);
        if chance(1, 2) {
            c.pop = range(4, 6);
        }
        let mut rng = SimRng::pick(c.normal_draws(), true, chance(1, 2));
        for _ in 0..idx(3) {
            let (s, l) = (below(c.normal_draws() + 1), 1 + below(20_000));
            rng.stalls.push((s, l));
        }
        start_run(&c, &rng);
        let ans = Answers::pick();
        let rec = run_opt(&c, &mut rng, None, |n, a, b| ans.answer(n, a, b));
        ans.count(rec.hist.len());
        check_budget(&c, &rec);
        if matches!(rec.out, Out::Ok(_)) && rec.draws > c.draw_cap(rng.stalled()) {
            violate("C04", "draws", format!("{}: {} draws", c.show(), rec.draws));
        }
    }
    dims!(go)
}

fn same_rec<S: Sc, const N: usize>(a: &Rec<S, N>, b: &Rec<S, N>) -> Result<(), String> {
    for k in 0..a.hist.len().max(b.hist.len()) {
        match (a.hist.get(k), b.hist.get(k)) {
            (Some(x), Some(y)) if same(&x.0, &y.0) && same(&x.1, &y.1) && x.2 == y.2 => {}
            _ => return Err(format!("the records differ at comparison {k}")),
        }
    }
    if a.draws != b.draws {
        return Err(format!("{} draws instead of {}", b.draws, a.draws));
    }
    match (&a.out, &b.out) {
        (Out::Ok(x), Out::Ok(y)) if same(x, y) => Ok(()),
        (Out::Ok(x), Out::Ok(y)) => Err(format!("returned {} instead of {}", showc(y), showc(x))),
        (x, y) => Err(format!("ended in {} instead of {}", why(y), why(x))),
    }
}

/// Memory held by somebody else, so that a repeated run finds its own
/// population at another address.
fn ballast<S: Sc, const N: usize>(c: &Cfg<S, N>) -> Vec<Vec<u8>> {
    let size = c.pop * N * std::mem::size_of::<S>();
    (0..idx(4)).map(|_| vec![1u8; (size + [0, 0, 16, 40][idx(4)]).max(1)]).collect()
}

/// C06: interleaved on simulated threads, nested, and after aborted runs.
pub fn isolation() {
    fn go<S: Sc, const N: usize>() {
        let threads = range(2, 4);
        let mut cfgs = Vec::new();
        for k in 0..threads {
            let mut c = if k > 0 && chance(1, 4) { Clone::clone(&cfgs[0]) } else { small::<S, N>() };
            c.1.log = None;
            cfgs.push(c);
        }
        let solo: Vec<Rec<S, N>> = cfgs
            .iter()
            .map(|(c, r, a)| {
                start_run(c, r);
                ctx().draw_cap = u64::MAX;
                run_opt(c, &mut r.clone(), None, |n, x, y| a.answer(n, x, y))
            })
            .collect();
        for (k, s) in solo.iter().enumerate() {
            if !matches!(s.out, Out::Ok(_)) {
                violate("C06", "no-result", format!("{} ended in {}", cfgs[k].0.show(), why(&s.out)));
                return;
            }
        }
        let _ballast = ballast(&cfgs[0].0);
        match weighted(&[3, 2, 2]) {
            0 => {
                // Simulated threads; some of them repeat their run, some are
                // aborted by a failure in the middle.
                let plans: Vec<Vec<Option<(u32, u64)>>> = (0..threads)
                    .map(|k| {
                        (0..range(1, 2))
                            .map(|_| {
                                if chance(1, 4) {
                                    let m = [M_CMP, M_DRAW, M_SCALAR, M_ALLOC][idx(4)];
                                    let n = solo[k].win.count(m);
                                    if n == 0 {
                                        None
                                    } else {
                                        Some((m, below(n)))
                                    }
                                } else {
                                    None
                                }
                            })
                            .collect()
                    })
                    .collect();
                note(|| format!("{threads} threads, faults {plans:?}"));
                let bodies: Vec<Box<dyn FnOnce() + '_>> = (0..threads)
                    .map(|k| {
                        let (c, r, a) = &cfgs[k];
                        let (s, ps) = (&solo[k], &plans[k]);
                        Box::new(move || {
                            for p in ps {
                                let rec = run_opt(c, &mut r.clone(), *p, |n, x, y| a.answer(n, x, y));
                                if rec.win.fired.is_some() {
                                    if !matches!(rec.out, Out::Injected(i) if Some(i) == rec.win.fired) {
                                        violate("C06", "crosstalk", format!("thread {k}: {}", why(&rec.out)));
                                    }
                                } else if let Err(e) = same_rec(s, &rec) {
                                    violate("C06", "interleaved", format!(
                                        "{} on thread {k} of {threads}, interleaved: {e}", c.show()
                                    ));
                                }
                            }
                        }) as Box<dyn FnOnce() + '_>
                    })
                    .collect();
                let (sw, h) = sched::run(bodies, 1 + [1, 3, 10, 50][idx(4)]);
                stat("thread switches", sw);
                hash_in(h);
            }
            1 => {
                // Nested: run 1 is started inside a comparison of run 0.
                let at = below(solo[0].hist.len() as u64);
                note(|| format!("nested at comparison {at}"));
                let (c, r, a) = &cfgs[0];
                let (c1, r1, a1) = &cfgs[1];
                let abort = chance(1, 3);
                let n1 = solo[1].hist.len() as u64;
                let stop = below(n1);
                let mut inner = None;
                let rec = run_opt(c, &mut r.clone(), None, |n, x, y| {
                    if n == at {
                        inner = Some(attempt(|| {
                            nested(c1, &mut r1.clone(), |m, x, y| {
                                if abort && m == stop {
                                    std::panic::resume_unwind(Box::new(Injected(u64::MAX - 1)));
                                }
                                a1.answer(m, x, y)
                            })
                        }));
                    }
                    a.answer(n, x, y)
                });
                if let Err(e) = same_rec(&solo[0], &rec) {
                    violate("C06", "outer", format!("{} with a run nested in comparison {at}: {e}", c.show()));
                }
                match inner {
                    Some(Out::Ok((h, res))) => {
                        let ok = h.len() == solo[1].hist.len()
                            && h.iter().zip(&solo[1].hist).all(|(x, y)| same(&x.0, &y.0) && same(&x.1, &y.1))
                            && matches!(&solo[1].out, Out::Ok(s) if same(s, &res));
                        if !ok {
                            violate("C06", "nested", format!("{} differs when nested", c1.show()));
                        }
                    }
                    Some(Out::Injected(x)) if abort && x == u64::MAX - 1 => stat("fault: nested run aborted", 1),
                    Some(o) => violate("C06", "nested", format!("nested run ended in {}", why(&o))),
                    None => violate("C06", "outer", "the comparison for nesting was not reached".into()),
                }
            }
            _ => {
                // After aborted runs.
                for _ in 0..range(1, 3) {
                    let k = idx(threads);
                    let m = [M_CMP, M_DRAW, M_SCALAR, M_ALLOC][idx(4)];
                    let n = solo[k].win.count(m);
                    if n > 0 {
                        let (c, r, a) = &cfgs[k];
                        run_opt(c, &mut r.clone(), Some((m, below(n))), |n, x, y| a.answer(n, x, y));
                        stat("fault: earlier run aborted", 1);
                    }
                    let (c, r, a) = &cfgs[0];
                    let _ballast = ballast(c);
                    let rec = run_opt(c, &mut r.clone(), None, |n, x, y| a.answer(n, x, y));
                    if let Err(e) = same_rec(&solo[0], &rec) {
                        violate("C06", "after-abort", format!("{} after an aborted run: {e}", c.show()));
                    }
                }
            }
        }
    }
    dims!(go)
}
fn small<S: Sc, const N: usize>() -> (Cfg<S, N>, SimRng, Answers) {
    let c = match weighted(&[30, 4, 1]) {
        0 => {
            let mut c = Cfg::<S, N>::pick(Size::Small);
            c.pop = c.pop.min(12);
            c.iters = c.iters.min(40);
            c
        }
        1 => {
            let mut c = Cfg::<S, N>::pick(Size::Small);
            c.iters = c.iters.min(120);
            c
        }
        _ => {
            let mut c = Cfg::<S, N>::pick(Size::Wide);
            c.iters = c.iters.min(c.pop + 60);
            c
        }
    };
    let rng = SimRng::pick(c.normal_draws(), chance(1, 2), chance(1, 3));
    (c, rng, Answers::pick())
}
type NestedRec<S, const N: usize> = (Vec<(Cand<S, N>, Cand<S, N>)>, Cand<S, N>);
fn nested<S: Sc, const N: usize>(
    c: &Cfg<S, N>,
    rng: &mut SimRng,
    mut answer: impl FnMut(u64, &Cand<S, N>, &Cand<S, N>) -> bool,
) -> NestedRec<S, N> {
    let mut h = Vec::with_capacity(c.iters + c.pop + 8);
    let r = lib(|| {
        differential_evolution(&c.bounds, c.pop, c.cr, c.f, c.iters, rng, |a: &Cand<S, N>, b: &Cand<S, N>| {
            let _g = event(K::Cmp);
            let n = h.len() as u64;
            h.push((*a, *b));
            answer(n, a, b)
        })
    });
    (h, r)
}

/// C07: failures inside a run, then a following run with the same generator.
pub fn aborted() {
    fn go<S: Sc, const N: usize>() {
        let (c, mut rng, ans) = small::<S, N>();
        start_run(&c, &rng);
        ctx().draw_cap = u64::MAX;
        let solo = run_opt(&c, &mut rng.clone(), None, |n, a, b| ans.answer(n, a, b));
        ans.count(solo.hist.len());
        if !matches!(solo.out, Out::Ok(_)) {
            violate("C07", "no-result", format!("{} ended in {}", c.show(), why(&solo.out)));
            return;
        }
        if solo.balance != 0 {
            violate("C07", "leak", format!("{}: {} bytes still held after a completed run", c.show(), solo.balance));
        }
        for _ in 0..range(1, 2) {
            let kinds: Vec<u32> =
                [M_CMP, M_DRAW, M_SCALAR, M_ALLOC].into_iter().filter(|&m| solo.win.count(m) > 0).collect();
            let m = kinds[idx(kinds.len())];
            let n = solo.win.count(m);
            let pos = match weighted(&[4, 1, 1]) {
                0 => below(n),
                1 => n - 1,
                _ => 0,
            };
            note(|| format!("failure at {} event {pos} of {n}", crate::store::mask_name(m)));
            let rec = run_opt(&c, &mut rng, Some((m, pos)), |n, a, b| ans.answer(n, a, b));
            if rec.win.fired.is_none() {
                // A second round starts from another generator state and may
                // be shorter.
                stat("faults not reached", 1);
                continue;
            }
            let kind = crate::store::mask_name(m);
            match &rec.out {
                Out::Injected(s) if Some(*s) == rec.win.fired => {}
                Out::Ok(_) => violate("C07", "swallowed", format!("{}: a failing {kind} was swallowed", c.show())),
                o => violate("C07", "replaced", format!("{}: a failing {kind} surfaced as {}", c.show(), why(o))),
            }
            if rec.win.after > 0 {
                violate("C07", "continued", format!(
                    "{}: {} more callbacks after a failing {kind}", c.show(), rec.win.after
                ));
            }
            if rec.balance != 0 {
                violate("C07", "leak", format!(
                    "{}: {} bytes still held after a failing {kind}", c.show(), rec.balance
                ));
            }
            // The following call.
            let state = rng.clone();
            let next = run_opt(&c, &mut rng, None, |n, a, b| ans.answer(n, a, b));
            let mut o = state.clone();
            o.log = Some(Vec::new());
            let fresh = run_opt(&c, &mut o, None, |n, a, b| ans.answer(n, a, b));
            if let Err(e) = same_rec(&fresh, &next) {
                violate("C07", "aftermath", format!("{}: call following a failing {kind}: {e}", c.show()));
            }
            let before = ctx().viol.len();
            check_budget(&c, &next);
            if let Some(init) = check_replay(&c, &next) {
                if c.pop <= 9 {
                    check_rule(&c, &next, &init);
                }
                check_start(&c, &next, &init, o.log.as_deref().map(|l| &l[..fresh.first_cmp_draws as usize]));
            }
            let msgs: Vec<String> = ctx().viol[before..].iter().map(|v| v.msg.clone()).collect();
            if let Some(m) = msgs.first() {
                violate("C07", "aftermath", format!("call following a failing {kind}: {m}"));
            }
            rng = SimRng::pick(c.normal_draws(), chance(1, 2), false);
        }
    }
    dims!(go)
}

/// C16 for the optimizer: invalid and boundary-valid arguments.
pub fn arguments() {
    fn go<S: Sc, const N: usize>() {
        let mut c = Cfg::<S, N>::pick(Size::Small);
        c.pop = c.pop.min(8);
        c.iters = c.iters.min(20);
        let salt = word();
        let mut rng = SimRng::fair(word());
        let valid = chance(1, 3);
        let bad_f = [-1e-6, 2.0 + 1e-6, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, 3.0, 2.5];
        let bad_cr = [-1e-6, 1.0 + 1e-6, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1.0, 2.0, 1.5];
        match (valid, idx(3)) {
            (true, 0) => c.pop = 4,
            (true, 1) => c.cr = [0.0, 1.0, -0.0, f32::MIN_POSITIVE][idx(4)],
            (true, _) => c.f = S::mk([0.0, 2.0, -0.0, 1e-30][idx(4)], salt),
            (false, 0) => c.pop = idx(4),
            (false, 1) => c.cr = bad_cr[idx(8)],
            (false, _) => c.f = S::mk(bad_f[idx(8)], salt),
        }
        start_run(&c, &rng);
        ctx().draw_cap = 1_000_000;
        let ans = Answers::Honest(salt);
        let rec = run_opt(&c, &mut rng, None, |n, a, b| ans.answer(n, a, b));
        ans.count(rec.hist.len());
        if valid {
            stat("boundary-valid optimizer calls", 1);
            if !matches!(rec.out, Out::Ok(_)) {
                violate("C16", "optimizer-refused", format!("{} is valid but ended in {}", c.show(), why(&rec.out)));
            }
            return;
        }
        stat("fault: rejected request", 1);
        match &rec.out {
            Out::Panic(_) => {}
            Out::Ok(_) => violate("C16", "optimizer-accepted", format!("{} must be refused but was accepted", c.show())),
            o => violate("C16", "optimizer-odd", format!("{} ended in {}", c.show(), why(o))),
        }
        let n = rec.win.count(M_CMP | M_DRAW | M_SCALAR);
        if n > 0 {
            violate("C16", "optimizer-late", format!("{}: {n} callbacks before the refusal", c.show()));
        }
    }
    dims!(go)
}

// ---- C08: frequencies ---------------------------------------------------

/// Rigorous two-sided test: by Chernoff's bound the probability of a false
/// alarm is below 2*exp(-45) per call.
/// `open` further cases could not be attributed: they are counted in the way
/// most favourable to the library.
fn freq(hits: u64, n: u64, open: u64, p: f64, what: impl FnOnce() -> String) {
    stat("frequency tests", 1);
    if n == 0 {
        return;
    }
    let n = n + open;
    let need = (p * n as f64).ceil() as u64;
    let hits = if hits >= need { hits } else { need.min(hits + open) };
    let q = hits as f64 / n as f64;
    let term = |a: f64, b: f64| if a == 0.0 { 0.0 } else { a * (a / b).ln() };
    let kl = term(q, p) + term(1.0 - q, 1.0 - p);
    if n as f64 * kl > 45.0 {
        violate("C08", "bias", format!("{}: {hits} of {n} instead of a fraction of {p:.6}", what()));
    }
}

/// Hits of events whose probabilities are known given everything that
/// happened before (so they may depend on each other).
#[derive(Default, Clone, Copy)]
struct Mart {
    hits: u64,
    open: u64,
    exp: f64,
    var: f64,
}
impl Mart {
    /// `hit` is None if the outcome could not be attributed.
    fn add(&mut self, p: f64, hit: Option<bool>) {
        self.exp += p;
        self.var += p * (1.0 - p);
        match hit {
            Some(h) => self.hits += h as u64,
            None => self.open += 1,
        }
    }
    /// Freedman's inequality over a grid of variances: by chance this fails
    /// with a probability below 200*exp(-50).
    fn test(&self, what: impl FnOnce() -> String) {
        stat("conditional frequency tests", 1);
        let (lo, hi) = (self.hits as f64, (self.hits + self.open) as f64);
        let d = if lo > self.exp { lo - self.exp } else { (self.exp - hi).max(0.0) };
        let mut v = 1.0;
        while v < self.var {
            v *= 1.25;
        }
        if d * d / (2.0 * (v + d / 3.0)) > 50.0 {
            violate("C08", "bias", format!("{}: {} to {} times instead of {:.1}", what(), self.hits, self.hits + self.open, self.exp));
        }
    }
}
/// One count per event name, two small numbers and a flag.
struct Marts(Vec<(&'static str, Vec<Mart>)>);
impl Marts {
    fn at(&mut self, name: &'static str, a: usize, b: usize, flag: bool) -> &mut Mart {
        // Names are literals: the same place, the same text.
        let k = self.0.iter().position(|(n, _)| std::ptr::eq(*n, name)).unwrap_or_else(|| {
            self.0.push((name, vec![Mart::default(); 128]));
            self.0.len() - 1
        });
        &mut self.0[k].1[(a * 8 + b) * 2 + flag as usize]
    }
    fn test(&self, cfg: &str) {
        for (name, all) in &self.0 {
            for (k, m) in all.iter().enumerate().filter(|(_, m)| m.exp > 0.0) {
                m.test(|| format!("{cfg}: {name} ({}, {}, {})", k / 16, k / 2 % 8, k % 2));
            }
        }
    }
}
/// A trial as far as it could be attributed.
#[derive(Clone, Copy)]
struct Past {
    donors: [usize; 3],
    mask: u64,
    accepted: bool,
}

pub fn frequencies(scale: u64) {
    fn go<const N: usize>(scale: u64) {
        let mut c = Cfg::<Sx, N>::pick(Size::Small);
        c.pop = match weighted(&[3, 3, 2, 2]) {
            0 => 4,
            1 => 5,
            2 => range(6, 9),
            _ => range(10, 20),
        };
        let p = c.pop;
        c.cr = match weighted(&[3, 1, 1, 1]) {
            0 => (1 + below(999)) as f32 / 1000.0,
            1 => 0.5,
            2 => 0.9,
            _ => 0.1,
        };
        // Few iterations: numbers stay moderate; many runs are pooled.
        c.iters = match idx(3) {
            0 => 2 * p,
            1 => 5 * p + 1,
            _ => p,
        };
        let seed = word();
        // What the answers are must not matter.
        let ans = match weighted(&[2, 1, 3]) {
            0 => Answers::Random(word()),
            1 => Answers::Honest(word()),
            _ => Answers::False,
        };
        if chance(1, 4) && !matches!(ans, Answers::Random(_)) {
            c.iters = range(100, 1500);
        }
        let runs = scale / (c.iters + p) as u64 + 1;
        note(|| format!("{runs} runs of {} answers {ans:?}", c.show()));
        start_run(&c, &SimRng::fair(0));
        ctx().draw_cap = u64::MAX;
        let mut bins = vec![[0u64; 16]; N];
        let mut pair = vec![0u64; 64];
        let mut first = vec![0u64; 16];
        let mut total = 0u64;
        let mut trials = vec![0u64; p];
        let mut triples: HashMap<(usize, usize, usize, usize), u64> = HashMap::new();
        let mut dj = vec![[0u64; 3]; p];
        let mut dd = vec![[0u64; 3]; p];
        let mut masks: HashMap<u64, u64> = HashMap::new();
        let mut per_comp = vec![0u64; N];
        let mut unexplained = 0u64;
        let mut prev: Option<(u64, usize, u64, usize)> = None;
        // Per role (challenged member, donors) and member: trials, and how
        // often each component came from the mutant in them.
        let mut role = vec![[(0u64, [0u64; N]); 4]; p];
        let mut steps: HashMap<(usize, usize), u64> = HashMap::new();
        let mut serial = [0u64; 4];
        let mut serial_n = 0u64;
        let mut marts = Marts(Vec::new());
        let one = 1.0 / N as f64 + (1.0 - 1.0 / N as f64) * c.cr as f64;
        let single = 1.0 / N as f64 * (1.0 - c.cr as f64).powi(N as i32 - 1);
        let mut last_run: Vec<Option<Past>> = Vec::new();
        for k in 0..runs {
            let k_run = k;
            let mut this_run: Vec<Option<Past>> = Vec::with_capacity(c.iters);
            let mut own: Vec<Option<Past>> = vec![None; p];
            let mut replaced = vec![false; p];
            let (mut last_accepted, mut last_challenged) = (None, None);
            let mut rng = SimRng::fair(mix(seed, k));
            let rec = run_opt(&c, &mut rng, None, |n, a, b| ans.answer(mix(k, n), a, b));
            if !matches!(rec.out, Out::Ok(_)) {
                violate("C08", "no-result", format!("{} ended in {}", c.show(), why(&rec.out)));
                return;
            }
            let Some(init) = check_replay(&c, &rec) else { return };
            let frac = |m: &Cand<Sx, N>, d: usize| {
                let (lo, hi) = c.bounds[d];
                (m[d].a - lo.a) / (hi.a - lo.a)
            };
            for m in &init {
                for d in 0..N {
                    bins[d][((frac(m, d) * 16.0) as usize).min(15)] += 1;
                }
                let d2 = if N > 1 { 1 } else { 0 };
                if N > 1 {
                    let b = |d| ((frac(m, d) * 8.0) as usize).min(7);
                    pair[b(0) * 8 + b(d2)] += 1;
                }
            }
            first[((frac(&init[0], 0) * 16.0) as usize).min(15)] += 1;
            // Members must not know of each other.
            for d in 0..N {
                for e in 0..N.min(d + 2) {
                    let mut pair = |name, a: usize, b: usize| {
                        let cell = |v, d| ((frac(&init[v], d) * 4.0) as usize).min(3);
                        let (x, y) = (cell(a, d), cell(b, e));
                        marts.at(name, d, e, false).add(0.25, Some(x == y));
                        marts.at(name, d, e, true).add(0.25, Some(x + y == 3));
                    };
                    pair("first and last starting member", 0, p - 1);
                    for m in 0..p / 2 {
                        pair("neighbouring starting members", 2 * m, 2 * m + 1);
                        pair("starting members in the two halves", m, m + p / 2);
                        pair("starting members mirrored about the middle", m, p - 1 - m);
                    }
                }
            }
            each_trial(&c, &rec, &init, |t, i, cur, x| {
                total += 1;
                let found = explain(cur, i, x, &c);
                let now = found.as_ref().filter(|e| e.unique).map(|e| Past {
                    donors: [e.triple.0, e.triple.1, e.triple.2],
                    mask: e.mask,
                    accepted: rec.hist[t].2,
                });
                let before = this_run.last().copied().flatten();
                {
                    // Members a biased choice might favour or avoid.
                    let mut target = |name, sub: usize, flag: bool, v: usize| {
                        if v != i {
                            for q in 0..3 {
                                marts.at(name, q, sub, flag).add(1.0 / (p - 1) as f64, now.map(|e| e.donors[q] == v));
                            }
                        }
                    };
                    for q in 0..3 {
                        if let Some(b) = before {
                            target("a donor of the previous trial", q, b.accepted, b.donors[q]);
                        }
                        if let Some(b) = own[i] {
                            target("a donor of the member's previous trial", q, b.accepted, b.donors[q]);
                        }
                        if let Some(Some(b)) = last_run.get(t) {
                            target("a donor of the same trial of the previous run", q, b.accepted, b.donors[q]);
                        }
                    }
                    if let (Some(v), Some(a)) = (last_challenged, t.checked_sub(1).map(|t| rec.hist[t].2)) {
                        target("the member challenged before", 0, a, v);
                    }
                    if let Some(v) = last_accepted {
                        target("the member replaced last", 0, false, v);
                    }
                    let by = |f: &dyn Fn(usize) -> f64| (0..p).filter(|v| *v != i).min_by(|v, w| f(*v).total_cmp(&f(*w))).unwrap();
                    target("the member with the lowest coordinate", 0, false, by(&|v| cur[v][0].a));
                    target("the member with the highest coordinate", 0, false, by(&|v| -cur[v][0].a));
                    target("the nearest member", 0, false, by(&|v| (cur[v][0].a - cur[i][0].a).abs()));
                }
                if N > 1 {
                    let late = 4 * t / c.iters;
                    for d in 0..N {
                        let bit = now.map(|e| e.mask >> d & 1 == 1);
                        let mut given = |name, sub: usize, flag: bool| marts.at(name, d, sub, flag).add(one, bit);
                        given("component taken from the mutant, by quarter of the run", late, false);
                        given("component taken from the mutant, by earlier replacement of the member", 0, replaced[i]);
                        if let Some(b) = before {
                            given("component taken from the mutant, by the previous trial's success", 0, b.accepted);
                            for e in 0..N {
                                given("component taken from the mutant, by a component of the previous trial", e, b.mask >> e & 1 == 1);
                            }
                        }
                        if let Some(b) = own[i] {
                            given("component taken from the mutant, by that in the member's previous trial", b.accepted as usize, b.mask >> d & 1 == 1);
                        }
                        if let Some(Some(b)) = last_run.get(t) {
                            given("component taken from the mutant, by that in the previous run", 0, b.mask >> d & 1 == 1);
                        }
                        for (name, b) in [("only this component, after a single one", before), ("only this component, after a single one of the same member", own[i])] {
                            if let Some(b) = b.filter(|b| b.mask.count_ones() == 1) {
                                let e = b.mask.trailing_zeros() as usize;
                                marts.at(name, d, e, b.accepted).add(single, now.map(|x| x.mask == 1 << d));
                            }
                        }
                    }
                }
                this_run.push(now);
                own[i] = now;
                last_challenged = Some(i);
                if rec.hist[t].2 {
                    replaced[i] = true;
                    last_accepted = Some(i);
                }
                match found {
                    Some(e) if e.unique => {
                        let (j, k, l) = e.triple;
                        trials[i] += 1;
                        if p <= 5 {
                            *triples.entry((i, j, k, l)).or_insert(0) += 1;
                        }
                        for (q, v) in [j, k, l].into_iter().enumerate() {
                            dj[v][q] += 1;
                            dd[(v + p - i) % p][q] += 1;
                        }
                        *masks.entry(e.mask).or_insert(0) += 1;
                        for n in 0..N {
                            per_comp[n] += e.mask >> n & 1;
                        }
                        for (q, v) in [i, j, k, l].into_iter().enumerate() {
                            let c = &mut role[v][q];
                            c.0 += 1;
                            (0..N).for_each(|d| c.1[d] += e.mask >> d & 1);
                        }
                        let b = e.mask & 1;
                        let dist = (j + p - i) % p;
                        match prev {
                            Some((pk, pt, pb, pd)) if pk == k_run && pt + 1 == t => {
                                serial[(pb * 2 + b) as usize] += 1;
                                if p <= 9 {
                                    *steps.entry((pd, dist)).or_insert(0) += 1;
                                }
                                serial_n += 1;
                            }
                            _ => {}
                        }
                        prev = Some((k_run, t, b, dist));
                    }
                    _ => unexplained += 1,
                }
                true
            });
            last_run = this_run;
        }
        stat("trial vectors explained", total);
        // A member that was itself made from donors still present gives some
        // trials two explanations (i = a+(b-c)F implies i+(c-l)F = a+(b-l)F).
        stat("ambiguous trial vectors", unexplained);
        note(|| format!("total {total} unexplained {unexplained}"));
        let n = total - unexplained;
        let cfg = c.show();
        for d in 0..N {
            for b in 0..16 {
                freq(bins[d][b], runs * p as u64, 0, 1.0 / 16.0, || format!("{cfg}: starting coordinate {d} in sixteenth {b}"));
            }
        }
        for b in 0..16 {
            freq(first[b], runs, 0, 1.0 / 16.0, || format!("{cfg}: first coordinate of the first member in sixteenth {b}"));
        }
        if N > 1 {
            for (b, h) in pair.iter().enumerate() {
                freq(*h, runs * p as u64, 0, 1.0 / 64.0, || format!("{cfg}: first two coordinates in cell {b}"));
            }
        }
        if p <= 5 {
            let per = 1.0 / ((p - 1) * (p - 2) * (p - 3)) as f64;
            for i in 0..p {
                for j in 0..p {
                    for k in 0..p {
                        for l in 0..p {
                            if [j, k, l].contains(&i) || j == k || k == l || j == l {
                                continue;
                            }
                            let h = triples.get(&(i, j, k, l)).copied().unwrap_or(0);
                            freq(h, trials[i], unexplained, per, || format!("{cfg}: donors ({j},{k},{l}) for member {i}"));
                        }
                    }
                }
            }
        }
        for v in 1..p {
            for q in 0..3 {
                freq(dd[v][q], n, unexplained, 1.0 / (p - 1) as f64, || {
                    format!("{cfg}: donor {} at distance {v} from the challenged member", ["a", "b", "c"][q])
                });
            }
        }
        // Members are challenged (nearly) equally often, so every member is
        // a donor with the average over the challenged ones.
        for v in 0..p {
            for q in 0..3 {
                let m = n - trials[v];
                freq(dj[v][q], m, unexplained, 1.0 / (p - 1) as f64, || {
                    format!("{cfg}: member {v} as donor {}", ["a", "b", "c"][q])
                });
            }
        }
        marts.test(&cfg);
        let cr = c.cr as f64;
        for d in 0..N {
            freq(per_comp[d], n, unexplained, one, || format!("{cfg}: component {d} taken from the mutant"));
        }
        for (v, roles) in role.iter().enumerate() {
            for (q, (m, hits)) in roles.iter().enumerate() {
                for d in 0..N {
                    freq(hits[d], *m, unexplained, one, || {
                        format!("{cfg}: component {d} taken from the mutant while member {v} is {}", ["challenged", "donor a", "donor b", "donor c"][q])
                    });
                }
            }
        }
        if p <= 9 {
            let pr = 1.0 / ((p - 1) * (p - 1)) as f64;
            for a in 1..p {
                for b in 1..p {
                    let h = steps.get(&(a, b)).copied().unwrap_or(0);
                    freq(h, serial_n, 2 * unexplained, pr, || format!("{cfg}: first donors at distances {a} and {b} in consecutive trials"));
                }
            }
        }
        if N <= 5 {
            for mask in 1u64..1 << N {
                let m = mask.count_ones();
                let pr = m as f64 / N as f64 * cr.powi(m as i32 - 1) * (1.0 - cr).powi((N as u32 - m) as i32);
                let h = masks.get(&mask).copied().unwrap_or(0);
                freq(h, n, unexplained, pr, || format!("{cfg}: exactly the components {mask:b} taken from the mutant"));
            }
        }
        if N > 1 {
            for (s, h) in serial.iter().enumerate() {
                let f = |b: usize| if b == 1 { one } else { 1.0 - one };
                freq(*h, serial_n, 2 * unexplained, f(s >> 1) * f(s & 1), || {
                    format!("{cfg}: component 0 of consecutive trials {s:02b}")
                });
            }
        }
    }
    match weighted(&[4, 3, 4, 2, 1]) {
        0 => go::<2>(scale),
        1 => go::<1>(scale),
        2 => go::<3>(scale),
        3 => go::<4>(scale),
        _ => go::<5>(scale),
    }
}

/// Donors read off the trial vectors of populations of any size. The
/// population is kept constant (no trial is preferred), every component comes
/// from the mutant, and coordinates carry their own identity.
struct Donors {
    c: Cfg<Ix, 2>,
    /// (trial, member, [a, b, c])
    trials: Vec<(usize, usize, [usize; 3])>,
    init: Vec<Cand<Ix, 2>>,
}
const ID_BASE: u64 = 1 << 20;
fn donors(prop: &'static str, pop: usize, iters: usize, rng: &mut SimRng) -> Option<Donors> {
    let i = |a: f64, z: u64| Ix { z, a };
    let (b0, b1) = (pick_interval(), pick_interval());
    let c = Cfg::<Ix, 2> {
        bounds: [(i(b0.0, 0), i(b0.1, 0)), (i(b1.0, 1), i(b1.1, 1))],
        pop,
        cr: 1.0,
        f: i(below(1 << 20) as f64 / (1 << 19) as f64, ID_BASE),
        iters,
    };
    start_run(&c, rng);
    IDS.set([0; 2]);
    let rec = run_opt(&c, rng, None, |_, _, _| false);
    if !matches!(rec.out, Out::Ok(_)) {
        violate(prop, "no-result", format!("{} ended in {}", c.show(), why(&rec.out)));
        return None;
    }
    // Slots: the first sweep challenges every member once.
    let n = c.iters.min(rec.hist.len());
    if n < pop {
        return None;
    }
    let init: Vec<Cand<Ix, 2>> = rec.hist[..pop].iter().map(|h| h.1).collect();
    let mut slot: HashMap<u64, usize> = HashMap::with_capacity(pop);
    for (s, m) in init.iter().enumerate() {
        if m[0].z >= 1 << 19 || mmul(m[0].z, m[0].z) != m[1].z || slot.insert(m[0].z, s).is_some() {
            // Not drawn in the same order in both dimensions.
            stat("populations whose coordinates carry no identity", 1);
            return None;
        }
    }
    let inv = crate::elem::minv(ID_BASE);
    let signed = |v: u64| if v > PRIME / 2 { v as i128 - PRIME as i128 } else { v as i128 };
    let mut trials = Vec::with_capacity(n);
    for (t, (x, m, _)) in rec.hist[..n].iter().enumerate() {
        let Some(&i) = slot.get(&m[0].z) else {
            violate(prop, "member", format!("{}: trial {t} challenges {}, which is no member", c.show(), showc(m)));
            return None;
        };
        // x0 = j + B (k - l), x1 = j^2 + B (k^2 - l^2)
        let x0 = signed(x[0].z);
        let j = x0.rem_euclid(ID_BASE as i128);
        let d = (x0 - j) / ID_BASE as i128;
        let q = signed(mmul(msub(x[1].z, mmul(j as u64, j as u64)), inv));
        let mut ids = None;
        if d != 0 && q % d == 0 && (q / d + d) % 2 == 0 {
            let (k, l) = ((q / d + d) / 2, (q / d - d) / 2);
            if k >= 0 && l >= 0 {
                ids = Some([j as u64, k as u64, l as u64]);
            }
        }
        let at = ids.map(|v| v.map(|z| slot.get(&z).copied()));
        match at {
            Some([Some(j), Some(k), Some(l)]) if j != k && k != l && j != l && ![j, k, l].contains(&i) => {
                trials.push((t, i, [j, k, l]))
            }
            _ => {
                violate(prop, "donors", format!(
                    "{}: trial {t} for member {i} is not made from three other distinct members (decoded: {at:?})", c.show()
                ));
                return None;
            }
        }
    }
    stat("trial vectors explained", n as u64);
    Some(Donors { c, trials, init })
}
fn pick_population() -> usize {
    match weighted(&[2, 4, 1]) {
        0 => [4, 5, 16, 17, 255, 256, 257, 300, 511, 513, 1024, 4097, 32_768, 32_769, 65_535, 65_536, 65_537, 65_600][idx(18)],
        1 => {
            // Uniform in the logarithm.
            let e = below(14_000) as f64 / 1000.0;
            4 + (3.0 * e.exp2()) as usize
        }
        _ => range(10_000, 140_000),
    }
}
/// C03 for populations of all sizes.
pub fn donors_at_scale() {
    let pop = pick_population();
    let iters = pop + [0, 1, pop / 2, pop][idx(4)];
    let mut rng = SimRng::pick((pop * 2 + iters * 15) as u64, true, chance(1, 2));
    donors("C03", pop, iters, &mut rng);
}

/// C08 for populations of all sizes.
pub fn donor_frequencies(scale: u64) {
    let p = pick_population();
    let iters = p + [0, 1, p / 2, p][idx(4)];
    let runs = scale / iters as u64 + 1;
    let seed = word();
    let at = |v: usize, of: usize| v * 16 / of;
    let mut pos = [[0u64; 16]; 3];
    let mut rel = [[0u64; 16]; 3];
    // Number of values falling into each sixteenth.
    let (mut wpos, mut wrel) = ([0u64; 16], [0u64; 16]);
    (0..p).for_each(|v| wpos[at(v, p)] += 1);
    (1..p).for_each(|v| wrel[at(v, p)] += 1);
    let (mut odd, mut low) = ([0u64; 3], [[0u64; 16]; 3]);
    let mut order = [0u64; 6];
    let mut start = [[0u64; 16]; 2];
    let mut late = [[0u64; 16]; 2];
    let (mut n, mut starts, mut lates) = (0u64, 0u64, 0u64);
    let mut challenged = [0u64; 16];
    let mut residue = [0u64; 16];
    let mut seen_odd = 0u64;
    let mut cfg = String::new();
    for k in 0..runs {
        let Some(d) = donors("C08", p, iters, &mut SimRng::fair(mix(seed, k))) else { return };
        cfg = d.c.show();
        for (_, i, v) in &d.trials {
            n += 1;
            challenged[at(*i, p)] += 1;
            seen_odd += *i as u64 & 1;
            residue[*i % 16] += 1;
            for q in 0..3 {
                pos[q][at(v[q], p)] += 1;
                rel[q][at((v[q] + p - i) % p, p)] += 1;
                odd[q] += v[q] as u64 & 1;
                low[q][v[q] % 16] += 1;
            }
            let [j, k, l] = *v;
            order[((j < k) as usize + (j < l) as usize) * 2 + (k < l) as usize] += 1;
        }
        for (s, m) in d.init.iter().enumerate() {
            for e in 0..2 {
                let (lo, hi) = (d.c.bounds[e].0.a, d.c.bounds[e].1.a);
                let b = (((m[e].a - lo) / (hi - lo) * 16.0) as usize).min(15);
                start[e][b] += 1;
                if s >= p - p / 16 {
                    late[e][b] += 1;
                }
            }
            starts += 1;
            lates += (s >= p - p / 16) as u64;
        }
    }
    let name = ["a", "b", "c"];
    // Averages over the challenged members, as they actually occurred: a
    // donor in a set S of members has probability (|S| - [i in S]) / (p - 1).
    let pr = |size: u64, hit: u64| (size as f64 - hit as f64 / n as f64) / (p - 1) as f64;
    for q in 0..3 {
        for b in 0..16 {
            freq(pos[q][b], n, 0, pr(wpos[b], challenged[b]), || format!("{cfg}: donor {} in sixteenth {b} of the population", name[q]));
            freq(rel[q][b], n, 0, wrel[b] as f64 / (p - 1) as f64, || {
                format!("{cfg}: donor {} at a distance in sixteenth {b} from the challenged member", name[q])
            });
        }
        freq(odd[q], n, 0, pr(p as u64 / 2, seen_odd), || format!("{cfg}: donor {} is an odd member", name[q]));
    }
    if p >= 64 {
        for q in 0..3 {
            for (b, h) in low[q].iter().enumerate() {
                let size = (p + 15 - b) as u64 / 16;
                freq(*h, n, 0, pr(size, residue[b]), || format!("{cfg}: donor {} at a position equal to {b} modulo 16", name[q]));
            }
        }
    }
    // Rank patterns: j below both or above both decide the order of k and l.
    for (b, h) in order.iter().enumerate() {
        freq(*h, n, 0, 1.0 / 6.0, || format!("{cfg}: order pattern {b} of the donors"));
    }
    for e in 0..2 {
        for b in 0..16 {
            freq(start[e][b], starts, 0, 1.0 / 16.0, || format!("{cfg}: starting coordinate {e} in sixteenth {b}"));
            freq(late[e][b], lates, 0, 1.0 / 16.0, || format!("{cfg}: coordinate {e} of the last starting members in sixteenth {b}"));
        }
    }
}

/// C08: crossover in many dimensions. With exact scalars a component differs
/// from the challenged member's exactly if it comes from the mutant.
pub fn crossover_frequencies(scale: u64) {
    fn go<const N: usize>(scale: u64) {
        let mut c = Cfg::<Sx, N>::pick(Size::Small);
        c.pop = range(4, 20);
        c.cr = match weighted(&[2, 1, 1, 1, 3]) {
            0 => 0.0,
            1 => 0.5,
            2 => 0.9,
            3 => 1.0,
            _ => below(1000) as f32 / 1000.0,
        };
        if c.f.a == 0.0 {
            c.f = Sx::mk(0.5, word());
        }
        c.iters = 3 * c.pop;
        let runs = scale.min(4_000_000 / N as u64) / c.iters as u64 + 1;
        let seed = word();
        note(|| format!("{runs} runs of {}", c.show()));
        start_run(&c, &SimRng::fair(0));
        ctx().draw_cap = u64::MAX;
        let mut n = 0u64;
        let mut comp = vec![0u64; N];
        let mut next = vec![0u64; N];
        let mut far = vec![0u64; N];
        let mut sizes = vec![0u64; N + 1];
        for k in 0..runs {
            let rec = run_opt(&c, &mut SimRng::fair(mix(seed, k)), None, |_, _, _| false);
            if !matches!(rec.out, Out::Ok(_)) {
                violate("C08", "no-result", format!("{} ended in {}", c.show(), why(&rec.out)));
                return;
            }
            for (x, m, _) in &rec.hist[..c.iters.min(rec.hist.len())] {
                n += 1;
                let from = |d: usize| x[d].z != m[d].z;
                let mut size = 0;
                for d in 0..N {
                    if from(d) {
                        size += 1;
                        comp[d] += 1;
                        next[d] += from((d + 1) % N) as u64;
                        far[d] += from((d + N / 2) % N) as u64;
                    }
                }
                sizes[size] += 1;
            }
        }
        stat("trial vectors explained", n);
        let cfg = c.show();
        let (nn, cr) = (N as f64, c.cr as f64);
        let one = 1.0 / nn + (1.0 - 1.0 / nn) * cr;
        let two = 2.0 / nn * cr + (1.0 - 2.0 / nn) * cr * cr;
        for d in 0..N {
            freq(comp[d], n, 0, one, || format!("{cfg}: component {d} taken from the mutant"));
            if N > 2 {
                freq(next[d], n, 0, two, || format!("{cfg}: components {d} and the next both taken from the mutant"));
                freq(far[d], n, 0, two, || format!("{cfg}: components {d} and {} both taken from the mutant", (d + N / 2) % N));
            }
        }
        // 1 + Binomial(N - 1, cr) components come from the mutant.
        let mut pm = vec![0.0; N + 1];
        pm[1] = 1.0;
        for _ in 1..N {
            for k in (1..=N).rev() {
                pm[k] = pm[k] * (1.0 - cr) + pm[k - 1] * cr;
            }
        }
        let mut cum = (0u64, 0.0f64);
        for k in 0..N {
            cum.0 += sizes[k];
            cum.1 += pm[k];
            if cum.1 < 1.0 - 1e-9 {
                freq(cum.0, n, 0, cum.1, || format!("{cfg}: at most {k} components taken from the mutant"));
            } else if cum.0 != n && cum.1 == 1.0 {
                violate("C08", "bias", format!("{cfg}: more than {k} components taken from the mutant"));
            }
        }
    }
    match idx(8) {
        0 => go::<2>(scale),
        1 => go::<6>(scale),
        2 => go::<8>(scale),
        3 => go::<10>(scale),
        4 => go::<17>(scale),
        5 => go::<33>(scale),
        6 => go::<65>(scale),
        _ => go::<257>(scale),
    }
}

// ---- C09: progress ------------------------------------------------------

/// A batch of optimizations of one convex problem; most must get there.
pub fn progress(batch: usize) {
    fn go<S: Sc, const N: usize>(batch: usize) {
        let scale = [1.0, 1e-6, 1e-3, 1e3, 1e6, 1e9][idx(6)];
        let offset = [0.0, 1.0, -3.0, 10.0][idx(4)] * scale;
        let f = 0.6 + below(31) as f64 / 100.0;
        let cr = 0.6 + below(36) as f32 / 100.0;
        let pop = 20 + 10 * N + idx(11);
        let kind = idx(4);
        let salt = word();
        // The minimum anywhere inside, including close to a bound.
        let place: Vec<f64> = (0..N)
            .map(|_| match idx(4) {
                0 => 0.5,
                1 => 0.02,
                2 => 0.98,
                _ => 0.05 + 0.9 * below(1000) as f64 / 1000.0,
            })
            .collect();
        let widths: Vec<f64> = (0..N).map(|_| [10.0, 1.0, 4.0][idx(3)] * scale).collect();
        // Rejecting everything for long is harmless by itself; the other lies
        // drive the population apart and are kept short.
        let lie_kind = idx(5);
        let lies = if lie_kind < 3 { [0, 10, 3 * pop][idx(3)] } else { [3, 10, 25, 60][idx(4)] * pop };
        let bounds: [(S, S); N] = std::array::from_fn(|d| {
            let lo = offset - widths[d] / 2.0;
            (S::mk(lo, mix(salt, d as u64)), S::mk(lo + widths[d], mix(salt, 100 + d as u64)))
        });
        let c = Cfg { bounds, pop, cr, f: S::mk(f, mix(salt, 999)), iters: lies + pop * (150 + 60 * N) };
        let best: Vec<f64> = (0..N).map(|d| bounds[d].0.a() + place[d] * widths[d]).collect();
        let value = |x: &Cand<S, N>| -> f64 {
            let u: Vec<f64> = (0..N).map(|d| (x[d].a() - best[d]) / widths[d]).collect();
            match kind {
                0 => u.iter().map(|v| v * v).sum(),
                1 => u.iter().map(|v| v.abs()).sum(),
                2 => u.iter().enumerate().map(|(k, v)| v * v * (1.0 + 3.0 * k as f64)).sum(),
                _ => {
                    // rotated
                    let s: f64 = u.iter().sum();
                    u.iter().map(|v| v * v).sum::<f64>() + s * s
                }
            }
        };
        note(|| format!(
            "{} kind {kind} scale {scale} offset {offset} lies {lies} place {place:?} x{batch}", c.show()
        ));
        let often = if chance(1, 3) { range(10, 60) } else { 0 };
        note(|| format!("{often} stalls per optimization"));
        let mut reached = 0;
        for k in 0..batch {
            let mut rng = SimRng::pick(c.normal_draws() / 2, true, false);
            if often > 0 {
                // Stuck again and again.
                rng.stalls = (0..often).map(|_| (below(c.normal_draws() / 2), 40 + below(200))).collect();
            }
            rng.shift_stalls((pop * N) as u64 + 1);
            if k == 0 {
                start_run(&c, &rng);
            }
            ctx().draw_cap = c.draw_cap(rng.stalled());
            let rec = run_opt(&c, &mut rng, None, |n, a, b| {
                if (n as usize) < lies {
                    match lie_kind {
                        0 => mix(salt, n) & 1 == 1,
                        1 => value(a) >= value(b),
                        2 => true,
                        3 => false,
                        // True answers, but as if every member were perfect
                        // already: only ties are admitted.
                        _ => a == b,
                    }
                } else {
                    value(a) < value(b)
                }
            });
            stat("optimizations", 1);
            stat("fault: lying answer", rec.hist.len().min(lies) as u64);
            if let Out::Ok(x) = rec.out {
                let err = (0..N).map(|d| ((x[d].a() - best[d]) / widths[d]).abs()).fold(0.0, f64::max);
                if err < 1e-2 {
                    reached += 1;
                    stat("optimizations that reached the minimum", 1);
                } else {
                    note(|| format!("optimization {k}: error {err:.3e}"));
                }
            }
        }
        if reached * 5 < batch * 3 {
            violate("C09", "no-progress", format!(
                "{} kind {kind} scale {scale} offset {offset} place {place:?} lies {lies}: only {reached} of {batch} optimizations reached the minimum",
                c.show()
            ));
        }
    }
    match weighted(&[4, 3, 3, 1, 3]) {
        0 => go::<f64, 2>(batch),
        1 => go::<f64, 1>(batch),
        2 => go::<f64, 3>(batch),
        3 => go::<f64, 5>(batch),
        _ => go::<f32, 2>(batch),
    }
}
