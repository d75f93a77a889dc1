//! Element types with exact arithmetic whose every operation is a seam.

use crate::ctx::{self, event, LibGuard, K};
use crate::tape::Prng;
use magnesia::algebra::{Complex, Conj, Field, Polynomial, Ring};
use magnesia::linalg::{SMatrix, SVector};
use std::fmt::Debug;
use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub, SubAssign};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const P: u64 = (1 << 61) - 1;
pub fn madd(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P {
        s - P
    } else {
        s
    }
}
pub fn mneg(a: u64) -> u64 {
    if a == 0 {
        0
    } else {
        P - a
    }
}
pub fn msub(a: u64, b: u64) -> u64 {
    madd(a, mneg(b))
}
pub fn mmul(a: u64, b: u64) -> u64 {
    let t = a as u128 * b as u128;
    let s = (t as u64 & P) + (t >> 61) as u64;
    let s = (s & P) + (s >> 61);
    if s >= P {
        s - P
    } else {
        s
    }
}
pub fn mpow(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mmul(r, a);
        }
        a = mmul(a, a);
        e >>= 1;
    }
    r
}
/// Total inverse: 1/0 is defined as 0.
pub fn minv(a: u64) -> u64 {
    mpow(a, P - 2)
}
pub fn mdiv(a: u64, b: u64) -> u64 {
    mmul(a, minv(b))
}
pub fn mint(x: i64) -> u64 {
    if x < 0 {
        mneg((-x) as u64 % P)
    } else {
        x as u64 % P
    }
}

/// Largest magnitude an element may take in library arithmetic before it
/// overflows (panics); 0 means unbounded.
pub static BOUND: AtomicU64 = AtomicU64::new(0);

/// Payload of an arithmetic overflow in a bounded element.
#[derive(Debug)]
pub struct Overflow;

/// An element of the prime field Z_p, tracked from creation to destruction.
pub struct E {
    v: u64,
    id: u64,
    magic: u64,
}
const MAGIC: u64 = 0x5EED_0F_E1E3_E275;

impl E {
    pub fn new(v: u64) -> E {
        debug_assert!(v < P);
        let id = ctx::reg_new();
        E { v, id, magic: id.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ MAGIC }
    }
    pub fn get(&self) -> u64 {
        let good = self.magic == self.id.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ MAGIC;
        if !good || ctx::reg_state(self.id) != 1 {
            let _g = ctx::set_in_lib(0);
            ctx::violate("C13", "use-after-drop", "an element that is not alive was used".into());
        }
        self.v
    }
}
impl Drop for E {
    fn drop(&mut self) {
        let _g = ctx::set_in_lib(0);
        if self.magic != self.id.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ MAGIC {
            ctx::violate("C13", "garbage", "something that is not a live element was destroyed".into());
            return;
        }
        ctx::reg_drop(self.id);
        self.magic = 0;
    }
}
fn fin(g: Option<LibGuard>, v: u64) -> E {
    if g.as_ref().is_some_and(|g| g.counted()) {
        let b = BOUND.load(Relaxed);
        if b != 0 && v > b && v < P - b {
            ctx::overflowed();
            std::panic::resume_unwind(Box::new(Overflow));
        }
    }
    E::new(v)
}
/// Reads operands first (a dead operand is noticed even if the event fails).
macro_rules! bin {
    ($tr:ident, $f:ident, $k:expr, $op:expr) => {
        impl $tr<E> for E {
            type Output = E;
            fn $f(self, r: E) -> E {
                (&self).$f(&r)
            }
        }
        impl<'a> $tr<&'a E> for E {
            type Output = E;
            fn $f(self, r: &'a E) -> E {
                (&self).$f(r)
            }
        }
        impl<'a> $tr<E> for &'a E {
            type Output = E;
            fn $f(self, r: E) -> E {
                self.$f(&r)
            }
        }
        impl<'a, 'b> $tr<&'b E> for &'a E {
            type Output = E;
            fn $f(self, r: &'b E) -> E {
                let (a, b) = (self.get(), r.get());
                let g = event($k);
                fin(g, $op(a, b))
            }
        }
    };
}
bin!(Add, add, K::Add, madd);
bin!(Sub, sub, K::Sub, msub);
bin!(Mul, mul, K::Mul, mmul);
bin!(Div, div, K::Div, mdiv);

macro_rules! asg {
    ($tr:ident, $f:ident, $k:expr, $op:expr) => {
        impl $tr<E> for E {
            fn $f(&mut self, r: E) {
                self.$f(&r)
            }
        }
        impl<'a> $tr<&'a E> for E {
            fn $f(&mut self, r: &'a E) {
                let (a, b) = (self.get(), r.get());
                let g = event($k);
                let n = fin(g, $op(a, b));
                self.v = n.v;
            }
        }
    };
}
asg!(AddAssign, add_assign, K::AddAsg, madd);
asg!(SubAssign, sub_assign, K::SubAsg, msub);

impl Neg for E {
    type Output = E;
    fn neg(self) -> E {
        let a = self.get();
        let g = event(K::Neg);
        fin(g, mneg(a))
    }
}
impl Conj for E {
    fn conj(self) -> E {
        self.get();
        let _g = event(K::Conj);
        self
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        let a = self.get();
        let _g = event(K::Clone);
        E::new(a)
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        let (a, b) = (self.get(), o.get());
        let _g = event(K::Eq);
        a == b
    }
}
impl From<i8> for E {
    fn from(x: i8) -> E {
        let _g = event(K::Const);
        E::new(mint(x as i64))
    }
}
impl Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", show(self.v))
    }
}
impl Ring for E {}
impl Field for E {}

pub fn show(v: u64) -> String {
    if v > P / 2 && P - v < 1 << 20 {
        format!("-{}", P - v)
    } else {
        format!("{v}")
    }
}

/// Model value of one element: its coordinates over Z_p.
pub type M = Vec<u64>;

/// Library element types with an exact model. All methods run on the harness
/// side (no events).
pub trait Elem:
    Ring
    + Debug
    + 'static
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + AddAssign<Self>
    + SubAssign<Self>
{
    const NAME: &'static str;
    /// Number of coordinates; 0 for the variable-length polynomials.
    const DIM: usize;
    fn mk(m: &M) -> Self;
    fn rd(&self) -> M;
    fn mmul(a: &M, b: &M) -> M;
    fn mone() -> M;
    fn mconj(a: &M) -> M {
        a.clone()
    }
    fn mdiv(_a: &M, _b: &M) -> M {
        unreachable!()
    }
    fn mzero() -> M {
        vec![0; Self::DIM]
    }
}

pub fn trim(mut v: M) -> M {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn at(v: &M, i: usize) -> u64 {
    v.get(i).copied().unwrap_or(0)
}
pub fn zipm<T: Elem>(a: &M, b: &M, f: impl Fn(u64, u64) -> u64) -> M {
    let n = if T::DIM == 0 { a.len().max(b.len()) } else { T::DIM };
    let v = (0..n).map(|i| f(at(a, i), at(b, i))).collect();
    if T::DIM == 0 {
        trim(v)
    } else {
        v
    }
}
pub fn xadd<T: Elem>(a: &M, b: &M) -> M {
    zipm::<T>(a, b, madd)
}
pub fn xsub<T: Elem>(a: &M, b: &M) -> M {
    zipm::<T>(a, b, msub)
}
pub fn xneg<T: Elem>(a: &M) -> M {
    a.iter().map(|&x| mneg(x)).collect()
}
/// Every coordinate is the old or the new one.
pub fn old_or_new(cur: &M, old: &M, new: &M) -> bool {
    let n = cur.len().max(old.len()).max(new.len());
    (0..n).all(|i| at(cur, i) == at(old, i) || at(cur, i) == at(new, i))
}

impl Elem for E {
    const NAME: &'static str = "E";
    const DIM: usize = 1;
    fn mk(m: &M) -> E {
        E::new(m[0])
    }
    fn rd(&self) -> M {
        vec![self.get()]
    }
    fn mmul(a: &M, b: &M) -> M {
        vec![mmul(a[0], b[0])]
    }
    fn mone() -> M {
        vec![1]
    }
    fn mdiv(a: &M, b: &M) -> M {
        vec![mdiv(a[0], b[0])]
    }
}
pub type CE = Complex<E>;
impl Elem for CE {
    const NAME: &'static str = "Complex<E>";
    const DIM: usize = 2;
    fn mk(m: &M) -> CE {
        Complex { re: E::new(m[0]), im: E::new(m[1]) }
    }
    fn rd(&self) -> M {
        vec![self.re.get(), self.im.get()]
    }
    fn mmul(a: &M, b: &M) -> M {
        vec![
            msub(mmul(a[0], b[0]), mmul(a[1], b[1])),
            madd(mmul(a[0], b[1]), mmul(a[1], b[0])),
        ]
    }
    fn mone() -> M {
        vec![1, 0]
    }
    fn mconj(a: &M) -> M {
        vec![a[0], mneg(a[1])]
    }
    fn mdiv(a: &M, b: &M) -> M {
        let n = minv(madd(mmul(b[0], b[0]), mmul(b[1], b[1])));
        let q = Self::mmul(a, &vec![b[0], mneg(b[1])]);
        vec![mmul(q[0], n), mmul(q[1], n)]
    }
}
/// A non-commutative ring: swapped factors become visible.
pub type S2 = SMatrix<E, 2, 2>;
impl Elem for S2 {
    const NAME: &'static str = "SMatrix<E,2,2>";
    const DIM: usize = 4;
    fn mk(m: &M) -> S2 {
        SMatrix::from([[E::new(m[0]), E::new(m[1])], [E::new(m[2]), E::new(m[3])]])
    }
    fn rd(&self) -> M {
        let a = self * &SVector([E::new(1), E::new(0)]);
        let b = self * &SVector([E::new(0), E::new(1)]);
        vec![a.0[0].get(), b.0[0].get(), a.0[1].get(), b.0[1].get()]
    }
    fn mmul(a: &M, b: &M) -> M {
        let f = |i: usize, j: usize| madd(mmul(a[2 * i], b[j]), mmul(a[2 * i + 1], b[2 + j]));
        vec![f(0, 0), f(0, 1), f(1, 0), f(1, 1)]
    }
    fn mone() -> M {
        vec![1, 0, 0, 1]
    }
}
/// Heap-allocated elements: element operations allocate themselves.
pub type PE = Polynomial<E>;
impl Elem for PE {
    const NAME: &'static str = "Polynomial<E>";
    const DIM: usize = 0;
    fn mk(m: &M) -> PE {
        Polynomial::from_coefficients(m.iter().map(|&x| E::new(x)).collect())
    }
    fn rd(&self) -> M {
        trim(read_poly(self, 4).into_iter().map(|m| m[0]).collect())
    }
    fn mmul(a: &M, b: &M) -> M {
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        let mut r = vec![0; a.len() + b.len() - 1];
        for i in 0..a.len() {
            for j in 0..b.len() {
                r[i + j] = madd(r[i + j], mmul(a[i], b[j]));
            }
        }
        trim(r)
    }
    fn mone() -> M {
        vec![1]
    }
}

/// Element types with conjugation and division.
pub trait FElem: Elem + Conj + Field + Div<Output = Self> {}
impl FElem for E {}
impl FElem for CE {}

pub const FP: u64 = 0x0123_4567_89AB_CDE;

/// Model of evaluating coefficients at a central scalar point.
pub fn eval_at<T: Elem>(c: &[M], x: u64) -> M {
    let mut y = T::mzero();
    for m in c.iter().rev() {
        y = y.iter().map(|&v| mmul(v, x)).collect();
        y = xadd::<T>(&y, m);
    }
    if T::DIM == 0 {
        trim(y)
    } else {
        y
    }
}
pub fn scalar<T: Elem>(x: u64) -> T {
    T::mk(&T::mone().iter().map(|&v| mmul(v, x)).collect())
}
/// Value of a library polynomial at a central scalar point (harness side).
pub fn peek<T: Elem>(p: &Polynomial<T>, x: u64) -> M {
    let x = scalar::<T>(x);
    ctx::inspect(|| p.eval_ref(&x)).rd()
}
/// All coefficients of a library polynomial, by interpolation with a growing
/// degree bound, confirmed at an independent point.
pub fn read_poly<T: Elem>(p: &Polynomial<T>, guess: usize) -> Vec<M> {
    let want = peek(p, FP);
    let mut n = guess.max(1);
    loop {
        let c = interpolate::<T>(p, n);
        if eval_at::<T>(&c, FP) == want {
            return c;
        }
        n *= 2;
        if n > 20_000 {
            panic!("polynomial evaluation is not a polynomial function");
        }
    }
}
fn interpolate<T: Elem>(p: &Polynomial<T>, n: usize) -> Vec<M> {
    // Newton form on the points 0..n, coordinate by coordinate.
    let mut d: Vec<M> = (0..n).map(|i| peek(p, i as u64)).collect();
    let dim = d.iter().map(|m| m.len()).max().unwrap_or(0);
    for m in d.iter_mut() {
        m.resize(dim, 0);
    }
    let inv: Vec<u64> = (0..=n as u64).map(minv).collect();
    for k in 1..n {
        for i in (k..n).rev() {
            for t in 0..dim {
                d[i][t] = mmul(msub(d[i][t], d[i - 1][t]), inv[k]);
            }
        }
    }
    // expand: c = d[n-1]; c = c*(x-k) + d[k]
    let mut c: Vec<M> = vec![vec![0; dim]; n];
    for k in (0..n).rev() {
        for i in (0..n).rev() {
            for t in 0..dim {
                let lower = if i > 0 { c[i - 1][t] } else { 0 };
                c[i][t] = msub(lower, mmul(k as u64, c[i][t]));
            }
        }
        for t in 0..dim {
            c[0][t] = madd(c[0][t], d[k][t]);
        }
    }
    if T::DIM == 0 {
        c = c.into_iter().map(trim).collect();
    }
    while c.last().is_some_and(|m| m.iter().all(|&x| x == 0)) {
        c.pop();
    }
    c
}

// ---- random values ------------------------------------------------------

/// A generator of element values: one style and one seed per object keeps
/// tapes short; style 0 is the simplest.
pub struct Vals {
    style: usize,
    n: u64,
    seed: u64,
    r: Prng,
}
impl Vals {
    pub fn pick() -> Vals {
        let style = ctx::weighted(&[3, 6, 2, 2, 1, 1]);
        let seed = if style == 0 || style == 5 { 0 } else { ctx::word() };
        Vals { style, n: 0, seed, r: Prng::new(seed) }
    }
    pub fn atom(&mut self) -> u64 {
        self.n += 1;
        let b = BOUND.load(Relaxed);
        let small = |r: &mut Prng, k: u64| mint(r.below(2 * k + 1) as i64 - k as i64);
        match self.style {
            0 => {
                if b != 0 {
                    self.n % 5
                } else {
                    self.n
                }
            }
            1 if b != 0 => small(&mut self.r, 11),
            1 => self.r.below(P),
            2 => {
                if self.r.below(4) == 0 {
                    small(&mut self.r, 9)
                } else {
                    0
                }
            }
            3 => small(&mut self.r, 2),
            4 => {
                small(&mut Prng::new(self.seed), 5)
            }
            _ => 0,
        }
    }
    pub fn elem<T: Elem>(&mut self) -> M {
        if T::DIM == 0 {
            let n = self.r.below(4);
            trim((0..n).map(|_| self.atom()).collect())
        } else {
            (0..T::DIM).map(|_| self.atom()).collect()
        }
    }
}
pub fn rnd_elem<T: Elem>() -> M {
    match ctx::weighted(&[4, 1, 1, 1]) {
        0 => Vals::pick().elem::<T>(),
        1 => T::mone(),
        2 => T::mzero(),
        _ => xneg::<T>(&T::mone()),
    }
}

