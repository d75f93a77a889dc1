//! Operations over the machine's own number types. The failures here are
//! arithmetic overflows (a panic in the checked build, wrapping in the build
//! as shipped) and failing allocations. The reference model is exact modular
//! arithmetic: an operation that completes has the exact result modulo 2^bits.

use crate::ctx::*;
use crate::store::{pick_fault, why, Focus};
use magnesia::algebra::*;
use magnesia::linalg::*;

/// Shape and entries.
#[derive(Clone, PartialEq, Debug)]
pub struct W {
    r: usize,
    c: usize,
    d: Vec<i128>,
}
fn w(r: usize, c: usize, d: Vec<i128>) -> W {
    W { r, c, d }
}
impl W {
    fn at(&self, r: usize, c: usize) -> i128 {
        self.d[r * self.c + c]
    }
    fn zip(&self, o: &W, f: impl Fn(i128, i128) -> i128) -> W {
        w(self.r, self.c, self.d.iter().zip(&o.d).map(|(&a, &b)| f(a, b)).collect())
    }
    fn map(&self, f: impl Fn(i128) -> i128) -> W {
        w(self.r, self.c, self.d.iter().map(|&a| f(a)).collect())
    }
    fn t(&self) -> W {
        w(self.c, self.r, (0..self.r * self.c).map(|k| self.at(k % self.r, k / self.r)).collect())
    }
}
fn add(a: i128, b: i128) -> i128 {
    a.wrapping_add(b)
}
fn sub(a: i128, b: i128) -> i128 {
    a.wrapping_sub(b)
}
fn mul(a: i128, b: i128) -> i128 {
    a.wrapping_mul(b)
}
fn matmul(a: &W, b: &W) -> W {
    let f = |r, c| (0..a.c).fold(0, |s, k| add(s, mul(a.at(r, k), b.at(k, c))));
    w(a.r, b.c, (0..a.r * b.c).map(|k| f(k / b.c, k % b.c)).collect())
}
fn dot(a: &W, b: &W) -> W {
    w(1, 1, vec![a.d.iter().zip(&b.d).fold(0, |s, (&x, &y)| add(s, mul(x, y)))])
}
/// Coefficients without trailing zeros.
fn poly(mut a: W) -> W {
    while a.d.last() == Some(&0) {
        a.d.pop();
    }
    a.r = a.d.len();
    a.c = 1;
    a
}
fn pmul(a: &W, b: &W) -> W {
    let mut d = vec![0; (a.r + b.r).max(1) - 1];
    if a.r == 0 || b.r == 0 {
        d.clear();
    }
    for i in 0..a.r {
        for j in 0..b.r {
            d[i + j] = add(d[i + j], mul(a.d[i], b.d[j]));
        }
    }
    w(d.len(), 1, d)
}
fn pzip(a: &W, b: &W, f: impl Fn(i128, i128) -> i128) -> W {
    let n = a.r.max(b.r);
    let g = |x: &W, k: usize| x.d.get(k).copied().unwrap_or(0);
    w(n, 1, (0..n).map(|k| f(g(a, k), g(b, k))).collect())
}
fn cmul(a: &W, b: &W) -> W {
    let (x, y) = (&a.d, &b.d);
    w(2, 1, vec![sub(mul(x[0], y[0]), mul(x[1], y[1])), add(mul(x[0], y[1]), mul(x[1], y[0]))])
}

/// A number type and what the run does with it.
#[derive(Clone, Copy)]
struct Mode {
    name: &'static str,
    /// 0: floating point, where the values are kept exactly representable.
    bits: u32,
    /// Magnitude class of the values.
    size: usize,
}
impl Mode {
    fn pick(name: &'static str, bits: u32) -> Mode {
        Mode { name, bits, size: if bits == 0 { 0 } else { idx(4) } }
    }
    /// Overflow cannot happen: every product and sum is tiny.
    fn calm(&self) -> bool {
        self.size == 0
    }
    fn wrap(&self, x: i128) -> i128 {
        match self.bits {
            0 | 128 => x,
            b => x << (128 - b) >> (128 - b),
        }
    }
    fn norm(&self, a: W) -> W {
        a.map(|x| self.wrap(x))
    }
    fn val(&self) -> i128 {
        let b = self.bits.max(8);
        let r = |k: u32| below(1 << k.min(62)) as i128 - (1 << (k.min(62) - 1));
        match self.size {
            0 => below(5) as i128 - 2,
            // Single products usually fit.
            1 => r(b / 2 - 1),
            // Single sums usually fit.
            2 => self.wrap(r(62) << (b.max(64) - 64)) / 4,
            _ => match idx(6) {
                0 => self.wrap(i128::MAX >> (128 - b)) - below(2) as i128,
                1 => self.wrap(i128::MIN >> (128 - b)) + below(2) as i128,
                2 => 0,
                3 => 1 - 2 * below(2) as i128,
                _ => r(b),
            },
        }
    }
    fn arr(&self, r: usize, c: usize) -> W {
        w(r, c, (0..r * c).map(|_| self.val()).collect())
    }
    fn refusable(&self, e: &str) -> bool {
        !self.calm() && e.starts_with("attempt to") && e.ends_with("overflow")
    }
}

pub trait V {
    /// Whether this holds exactly the given values.
    fn has(&self, a: &W) -> bool;
    /// The entries, where they can be read one by one.
    fn entries(&self) -> Option<W> {
        None
    }
}
fn shown<O: V>(o: &O) -> String {
    match o.entries() {
        Some(a) => format!("{a:?}"),
        None => "other coefficients".into(),
    }
}

fn plan_for(out_ok: bool, win: &Win, f: &Focus) -> Option<(u32, u64)> {
    if out_ok {
        pick_fault(win, &f.faults)
    } else {
        None
    }
}

/// A value operation `f` with the exact result `new`.
fn value<R: V>(m: &Mode, f: &Focus, what: &str, new: W, g: impl Fn() -> R) {
    let what = format!("{what} over {}", m.name);
    stat("operations", 1);
    arm(None);
    let out = attempt(|| drop(lib(&g)));
    let plan = plan_for(matches!(out, Out::Ok(_)), &disarm(), f);
    let new = m.norm(new);
    for round in 0..2 {
        note(|| format!("{what}, fault {:?}", if round == 0 { plan } else { None }));
        arm(if round == 0 { plan } else { None });
        let out = attempt(|| lib(&g));
        let win = disarm();
        match &out {
            Out::Ok(r) => {
                if win.fired.is_some() {
                    violate("C17", &format!("swallowed {what}"), format!("{what}: a failure inside it was swallowed"));
                }
                if !r.has(&new) {
                    violate("C17", &format!("wrong-value {what}"), format!("{what} gave {} instead of {new:?}", shown(r)));
                }
                return;
            }
            Out::Injected(_) if win.fired.is_some() => stat("retries after a failure", 1),
            Out::Panic(e) if m.refusable(e) => {
                stat("fault: machine overflow", 1);
                return;
            }
            e => {
                let s = format!("{what} on valid operands ended in {}", why(e));
                violate("C17", &format!("refused {what}"), s.clone());
                violate("C16", &format!("refused {what}"), s);
                return;
            }
        }
    }
}

/// An in-place operation; keeps `old` in step with `x`.
fn mutate<O: V + Clone>(own: &'static str, m: &Mode, f: &Focus, what: &str, x: &mut O, old: &mut W, new: W, g: impl Fn(&mut O)) {
    let what = format!("{what} over {}", m.name);
    stat("operations", 1);
    let new = m.norm(new);
    let mut copy = x.clone();
    arm(None);
    let out = attempt(|| lib(|| g(&mut copy)));
    let plan = plan_for(matches!(out, Out::Ok(_)), &disarm(), f);
    note(|| format!("{what}, fault {plan:?}"));
    arm(plan);
    let out = attempt(|| lib(|| g(x)));
    let win = disarm();
    match &out {
        Out::Ok(()) => {
            if win.fired.is_some() && own != "C10" {
                violate(own, &format!("swallowed {what}"), format!("{what}: a failure inside it was swallowed"));
            }
            if !x.has(&new) {
                violate(own, &format!("wrong-result {what}"), format!("{what}: {old:?} became {} instead of {new:?}", shown(x)));
            }
            *old = new;
            return;
        }
        Out::Injected(_) if win.fired.is_some() => {}
        Out::Panic(e) if m.refusable(e) => stat("fault: machine overflow", 1),
        e => {
            let s = format!("{what} on valid operands ended in {}", why(e));
            violate(own, &format!("refused {what}"), s.clone());
            violate("C16", &format!("refused {what}"), s);
            return;
        }
    }
    // It failed midway.
    let torn = match (own, x.entries()) {
        ("C10", _) => !x.has(old),
        (_, Some(e)) => {
            let z = e.r != old.r || e.c != old.c || (0..e.d.len()).any(|k| e.d[k] != old.d[k] && e.d[k] != new.d[k]);
            if !z {
                *old = e;
            }
            z
        }
        _ => false,
    };
    if torn {
        violate(own, &format!("torn {what}"), format!("{what} failed midway: {old:?} became {}, new value {new:?}", shown(x)));
    } else if own == "C10" && win.fired.is_some() {
        arm(None);
        let out = attempt(|| lib(|| g(x)));
        disarm();
        if !matches!(out, Out::Ok(())) || !x.has(&new) {
            violate(own, &format!("retry-wrong {what}"), format!("{what} repeated after a failure gave {}", shown(x)));
        }
        *old = new;
    }
}

/// An operand that is only read must stay what it was.
fn kept<O: V>(o: &O, a: &W, what: &str) {
    if !o.has(a) {
        violate("C12", "collateral", format!("an operand of {what} changed from {a:?} to {}", shown(o)));
    }
}

pub fn run(f: &Focus) {
    // Categories: Mul, Entry, Value.
    let wt = [f.cats[0], f.cats[1], f.cats[2]];
    for _ in 0..range(1, 4) {
        if has_viol() {
            return;
        }
        let cat = weighted(&wt);
        match idx(7) {
            0 => i8_::run(cat, f),
            1 => i16_::run(cat, f),
            2 => i32_::run(cat, f),
            3 => i64_::run(cat, f),
            4 => i128_::run(cat, f),
            5 => f32_::run(cat, f),
            _ => f64_::run(cat, f),
        }
    }
}

fn len() -> usize {
    match weighted(&[600, 200, 40, 4, 1]) {
        0 => range(0, 5),
        1 => range(6, 12),
        2 => [16, 17, 31, 32, 33, 64, 65][idx(7)],
        3 => [100, 127, 128, 129, 255, 256, 257, 300][idx(8)],
        _ => [511, 512, 513, 1023, 1024, 1025][idx(6)],
    }
}

macro_rules! number {
    ($m:ident, $t:ty, $bits:expr) => {
        mod $m {
            use super::*;

            const NAME: &str = stringify!($t);
            fn mk(x: i128) -> $t {
                x as $t
            }
            impl V for $t {
                fn has(&self, a: &W) -> bool {
                    *self as i128 == a.d[0]
                }
                fn entries(&self) -> Option<W> {
                    Some(w(1, 1, vec![*self as i128]))
                }
            }
            impl V for Complex<$t> {
                fn has(&self, a: &W) -> bool {
                    self.entries().as_ref() == Some(a)
                }
                fn entries(&self) -> Option<W> {
                    Some(w(2, 1, vec![self.re as i128, self.im as i128]))
                }
            }
            impl V for DVector<$t> {
                fn has(&self, a: &W) -> bool {
                    self.entries().as_ref() == Some(a)
                }
                fn entries(&self) -> Option<W> {
                    Some(w(self.len(), 1, (0..self.len()).map(|k| self[k] as i128).collect()))
                }
            }
            impl V for DMatrix<$t> {
                fn has(&self, a: &W) -> bool {
                    self.entries().as_ref() == Some(a)
                }
                fn entries(&self) -> Option<W> {
                    let (r, c) = (self.num_rows(), self.num_cols());
                    Some(w(r, c, (0..r * c).map(|k| self[[k / c, k % c]] as i128).collect()))
                }
            }
            impl<const D: usize> V for SVector<$t, D> {
                fn has(&self, a: &W) -> bool {
                    self.entries().as_ref() == Some(a)
                }
                fn entries(&self) -> Option<W> {
                    Some(w(D, 1, self.0.iter().map(|&x| x as i128).collect()))
                }
            }
            impl<const R: usize, const C: usize> V for SMatrix<$t, R, C> {
                fn has(&self, a: &W) -> bool {
                    self.entries().as_ref() == Some(a)
                }
                fn entries(&self) -> Option<W> {
                    let mut o = w(R, C, vec![0; R * C]);
                    for c in 0..C {
                        let e = SVector::<$t, C>(std::array::from_fn(|k| mk((k == c) as i128)));
                        let col = self * &e;
                        for r in 0..R {
                            o.d[r * C + c] = col.0[r] as i128;
                        }
                    }
                    Some(o)
                }
            }
            impl V for Polynomial<$t> {
                /// Exact where the representation matches, otherwise the values
                /// at a few points that can be computed.
                fn has(&self, a: &W) -> bool {
                    let a = poly(a.clone());
                    let mut v: Vec<$t> = a.d.iter().map(|&x| mk(x)).collect();
                    for _ in 0..4 {
                        if *self == Polynomial::from_coefficients(v.clone()) {
                            return true;
                        }
                        v.push(mk(0));
                    }
                    let m = Mode { name: NAME, bits: $bits, size: 3 };
                    (-3..4).all(|x: i128| {
                        let want = m.wrap(a.d.iter().rev().fold(0, |y, &c| add(mul(y, x), c)));
                        match attempt(|| self.eval(mk(x)) as i128) {
                            Out::Ok(y) => y == want,
                            _ => true,
                        }
                    })
                }
            }
            fn cx(a: &W) -> Complex<$t> {
                Complex::new(mk(a.d[0]), mk(a.d[1]))
            }
            fn dv(a: &W) -> DVector<$t> {
                let v: Vec<$t> = a.d.iter().map(|&x| mk(x)).collect();
                v.as_slice().eval()
            }
            fn dm(a: &W) -> DMatrix<$t> {
                make_matrix_expr(a.r, a.c, |r, c| mk(a.at(r, c))).eval()
            }
            fn sv<const D: usize>(a: &W) -> SVector<$t, D> {
                SVector(std::array::from_fn(|k| mk(a.d[k])))
            }
            fn sm<const R: usize, const C: usize>(a: &W) -> SMatrix<$t, R, C> {
                SMatrix::from(std::array::from_fn::<[$t; C], R, _>(|r| std::array::from_fn(|c| mk(a.at(r, c)))))
            }
            fn po(a: &W) -> Polynomial<$t> {
                Polynomial::from_coefficients(a.d.iter().map(|&x| mk(x)).collect())
            }

            pub fn run(cat: usize, f: &Focus) {
                let m = Mode::pick(NAME, $bits);
                match cat {
                    0 => match idx(5) {
                        0 | 1 => complex(cat, &m, f),
                        2 => polynomial(cat, &m, f),
                        _ => smatrix(cat, &m, f),
                    },
                    _ => match idx(6) {
                        0 => complex(cat, &m, f),
                        1 => polynomial(cat, &m, f),
                        2 => smatrix(cat, &m, f),
                        3 => svector(cat, &m, f),
                        4 => dvector(cat, &m, f),
                        _ => dmatrix(cat, &m, f),
                    },
                }
            }

            fn complex(cat: usize, m: &Mode, f: &Focus) {
                let (mut a, b) = (m.arr(2, 1), m.arr(2, 1));
                let (mut x, y) = (cx(&a), cx(&b));
                let s = mk(m.val());
                let si = s as i128;
                match cat {
                    0 => {
                        for _ in 0..range(1, 2) {
                            let n = cmul(&a, &b);
                            mutate("C10", m, f, "Complex *=", &mut x, &mut a, n, |x| *x *= y);
                        }
                    }
                    1 => {
                        let (p, q) = (a.zip(&b, add), a.zip(&b, sub));
                        match idx(4) {
                            0 => mutate("C11", m, f, "Complex +=", &mut x, &mut a, p, |x| *x += y),
                            1 => mutate("C11", m, f, "Complex += ref", &mut x, &mut a, p, |x| *x += &y),
                            2 => mutate("C11", m, f, "Complex -=", &mut x, &mut a, q, |x| *x -= y),
                            _ => mutate("C11", m, f, "Complex -= ref", &mut x, &mut a, q, |x| *x -= &y),
                        }
                    }
                    _ => match idx(8) {
                        0 => value(m, f, "Complex +", a.zip(&b, add), || x + y),
                        1 => value(m, f, "Complex -", a.zip(&b, sub), || x - y),
                        2 => value(m, f, "Complex *", cmul(&a, &b), || x * y),
                        3 => value(m, f, "Complex * refs", cmul(&a, &b), || &x * &y),
                        4 => value(m, f, "Complex * scalar", a.map(|v| mul(v, si)), || x * s),
                        5 => value(m, f, "Complex neg", a.map(|v| sub(0, v)), || -x),
                        6 => value(m, f, "Complex conj", w(2, 1, vec![a.d[0], sub(0, a.d[1])]), || x.conj()),
                        _ => value(m, f, "Complex sqr_norm", dot(&a, &a), || x.sqr_norm()),
                    },
                }
                kept(&y, &b, "a complex operation");
            }

            fn polynomial(cat: usize, m: &Mode, f: &Focus) {
                let big = if m.bits == 0 || m.calm() { 5 } else { len() };
                let (mut a, b) = (m.arr(range(0, big), 1), m.arr(range(0, big), 1));
                let (mut x, y) = (po(&a), po(&b));
                match cat {
                    0 => {
                        let n = pmul(&a, &b);
                        mutate("C10", m, f, "Polynomial *=", &mut x, &mut a, n, |x| *x *= y.clone());
                    }
                    1 => {
                        let (p, q) = (pzip(&a, &b, add), pzip(&a, &b, sub));
                        match idx(4) {
                            0 => mutate("C11", m, f, "Polynomial +=", &mut x, &mut a, p, |x| *x += y.clone()),
                            1 => mutate("C11", m, f, "Polynomial += ref", &mut x, &mut a, p, |x| *x += &y),
                            2 => mutate("C11", m, f, "Polynomial -=", &mut x, &mut a, q, |x| *x -= y.clone()),
                            _ => mutate("C11", m, f, "Polynomial -= ref", &mut x, &mut a, q, |x| *x -= &y),
                        }
                    }
                    _ => match idx(6) {
                        0 => value(m, f, "Polynomial +", pzip(&a, &b, add), || x.clone() + y.clone()),
                        1 => value(m, f, "Polynomial -", pzip(&a, &b, sub), || x.clone() - y.clone()),
                        2 => value(m, f, "Polynomial *", pmul(&a, &b), || x.clone() * y.clone()),
                        3 => value(m, f, "Polynomial * refs", pmul(&a, &b), || &x * &y),
                        4 => value(m, f, "Polynomial neg", a.map(|v| sub(0, v)), || -x.clone()),
                        _ => {
                            let p = below(3) as i128 - 1;
                            let v = a.d.iter().rev().fold(0, |y, &c| add(mul(y, p), c));
                            value(m, f, "Polynomial eval", w(1, 1, vec![v]), || x.eval(mk(p)))
                        }
                    },
                }
                kept(&y, &b, "a polynomial operation");
            }

            fn smatrix(cat: usize, m: &Mode, f: &Focus) {
                match idx(4) {
                    0 => smat::<2, 2>(cat, m, f),
                    1 => smat::<3, 3>(cat, m, f),
                    2 => smat::<1, 4>(cat, m, f),
                    _ => smat::<3, 2>(cat, m, f),
                }
            }
            fn smat<const R: usize, const C: usize>(cat: usize, m: &Mode, f: &Focus) {
                let (mut a, b, q) = (m.arr(R, C), m.arr(R, C), m.arr(C, C));
                let (mut x, y, z) = (sm::<R, C>(&a), sm::<R, C>(&b), sm::<C, C>(&q));
                match cat {
                    0 => {
                        let n = matmul(&a, &q);
                        if chance(1, 2) {
                            mutate("C10", m, f, "SMatrix *=", &mut x, &mut a, n, |x| *x *= z);
                        } else {
                            mutate("C10", m, f, "SMatrix *= ref", &mut x, &mut a, n, |x| *x *= &z);
                        }
                    }
                    1 => {
                        let (p, q) = (a.zip(&b, add), a.zip(&b, sub));
                        match idx(4) {
                            0 => mutate("C11", m, f, "SMatrix +=", &mut x, &mut a, p, |x| *x += y),
                            1 => mutate("C11", m, f, "SMatrix += ref", &mut x, &mut a, p, |x| *x += &y),
                            2 => mutate("C11", m, f, "SMatrix -=", &mut x, &mut a, q, |x| *x -= y),
                            _ => mutate("C11", m, f, "SMatrix -= ref", &mut x, &mut a, q, |x| *x -= &y),
                        }
                    }
                    _ => match idx(7) {
                        0 => value(m, f, "SMatrix +", a.zip(&b, add), || x + y),
                        1 => value(m, f, "SMatrix + ref", a.zip(&b, add), || x + &y),
                        2 => value(m, f, "SMatrix -", a.zip(&b, sub), || x - y),
                        3 => value(m, f, "SMatrix *", matmul(&a, &q), || x * z),
                        4 => value(m, f, "SMatrix * refs", matmul(&a, &q), || &x * &z),
                        5 => value(m, f, "SMatrix neg", a.map(|v| sub(0, v)), || -x),
                        _ => value(m, f, "SMatrix conj", a.clone(), || x.conj()),
                    },
                }
                kept(&y, &b, "a matrix operation");
                kept(&z, &q, "a matrix operation");
            }

            fn svector(cat: usize, m: &Mode, f: &Focus) {
                match idx(3) {
                    0 => svec::<3>(cat, m, f),
                    1 => svec::<8>(cat, m, f),
                    _ => svec::<17>(cat, m, f),
                }
            }
            fn svec<const D: usize>(cat: usize, m: &Mode, f: &Focus) {
                let (mut a, b) = (m.arr(D, 1), m.arr(D, 1));
                let (mut x, y) = (sv::<D>(&a), sv::<D>(&b));
                let s = mk(m.val());
                let si = s as i128;
                match cat {
                    1 => {
                        let (p, q, r) = (a.zip(&b, add), a.zip(&b, sub), a.map(|v| mul(v, si)));
                        match idx(6) {
                            0 => mutate("C11", m, f, "SVector +=", &mut x, &mut a, p, |x| *x += y),
                            1 => mutate("C11", m, f, "SVector += ref", &mut x, &mut a, p, |x| *x += &y),
                            2 => mutate("C11", m, f, "SVector -=", &mut x, &mut a, q, |x| *x -= y),
                            3 => mutate("C11", m, f, "SVector -= ref", &mut x, &mut a, q, |x| *x -= &y),
                            4 => mutate("C11", m, f, "SVector *= scalar", &mut x, &mut a, r, |x| *x *= s),
                            _ => mutate("C11", m, f, "SVector *= ref", &mut x, &mut a, r, |x| *x *= &s),
                        }
                    }
                    _ => match idx(5) {
                        0 => value(m, f, "SVector +", a.zip(&b, add), || x + y),
                        1 => value(m, f, "SVector - ref", a.zip(&b, sub), || x - &y),
                        2 => value(m, f, "SVector dot", dot(&a, &b), || x * y),
                        3 => value(m, f, "SVector dot ref", dot(&a, &b), || x * &y),
                        _ => value(m, f, "SVector * scalar", a.map(|v| mul(v, si)), || x * s),
                    },
                }
                kept(&y, &b, "a vector operation");
            }

            fn dvector(cat: usize, m: &Mode, f: &Focus) {
                let n = len();
                let (mut a, b, d) = (m.arr(n, 1), m.arr(n, 1), m.arr(n, 1));
                let (mut x, y, z) = (dv(&a), dv(&b), dv(&d));
                match cat {
                    1 => {
                        let (p, q) = (a.zip(&b, add), a.zip(&b, sub));
                        match idx(6) {
                            0 => mutate("C11", m, f, "DVector +=", &mut x, &mut a, p, |x| *x += y.clone()),
                            1 => mutate("C11", m, f, "DVector += ref", &mut x, &mut a, p, |x| *x += &y),
                            2 => mutate("C11", m, f, "DVector -=", &mut x, &mut a, q, |x| *x -= y.clone()),
                            3 => mutate("C11", m, f, "DVector -= ref", &mut x, &mut a, q, |x| *x -= &y),
                            4 => {
                                let e = b.zip(&d, add);
                                let e = a.zip(&e, sub);
                                mutate("C11", m, f, "DVector -= sum", &mut x, &mut a, e, |x| *x -= &y + &z)
                            }
                            _ => {
                                let e = b.zip(&d, mul);
                                let e = a.zip(&e, add);
                                mutate("C11", m, f, "DVector += product", &mut x, &mut a, e, |x| *x += y.mul_elemwise(&z))
                            }
                        }
                    }
                    _ => match idx(8) {
                        0 => value(m, f, "DVector +", a.zip(&b, add), || (&x + &y).eval()),
                        1 => value(m, f, "DVector -", a.zip(&b, sub), || (&x - &y).eval()),
                        2 => value(m, f, "DVector + -", a.zip(&b, add).zip(&d, sub), || (&x + &y - &z).eval()),
                        3 => value(m, f, "DVector dot", dot(&a, &b), || &x * &y),
                        4 => value(m, f, "DVector dot own", dot(&a, &b), || x.clone() * y.clone()),
                        5 => value(m, f, "DVector elementwise", a.zip(&b, mul), || x.mul_elemwise(&y).eval()),
                        6 => value(m, f, "DVector conj", a.clone(), || x.conj().eval()),
                        _ => {
                            let e = w(n, n, (0..n * n).map(|k| if k / n == k % n { a.d[k / n] } else { 0 }).collect());
                            value(m, f, "DVector diag", e, || x.diag().eval())
                        }
                    },
                }
                kept(&y, &b, "a vector operation");
                kept(&z, &d, "a vector operation");
            }

            fn dmatrix(cat: usize, m: &Mode, f: &Focus) {
                let (r, c) = (range(0, 5), range(0, 5));
                let k = range(1, 4);
                let (mut a, b, d, g) = (m.arr(r, c), m.arr(r, c), m.arr(c, k), m.arr(k, r));
                let (mut x, y, z) = (dm(&a), dm(&b), dm(&d));
                match cat {
                    1 => {
                        let (p, q) = (a.zip(&b, add), a.zip(&b, sub));
                        match idx(5) {
                            0 => mutate("C11", m, f, "DMatrix +=", &mut x, &mut a, p, |x| *x += y.clone()),
                            1 => mutate("C11", m, f, "DMatrix += ref", &mut x, &mut a, p, |x| *x += &y),
                            2 => mutate("C11", m, f, "DMatrix -=", &mut x, &mut a, q, |x| *x -= y.clone()),
                            3 => mutate("C11", m, f, "DMatrix -= ref", &mut x, &mut a, q, |x| *x -= &y),
                            _ => {
                                let t = g.t();
                                let u = m.arr(k, c);
                                let e = a.zip(&matmul(&t, &u), add);
                                let (t, u) = (dm(&t), dm(&u));
                                mutate("C11", m, f, "DMatrix += product", &mut x, &mut a, e, |x| *x += &t * &u)
                            }
                        }
                    }
                    _ => match idx(7) {
                        0 => value(m, f, "DMatrix +", a.zip(&b, add), || (&x + &y).eval()),
                        1 => value(m, f, "DMatrix -", a.zip(&b, sub), || (&x - &y).eval()),
                        // An empty inner dimension is the known finding.
                        2 | 3 if c > 0 => value(m, f, "DMatrix *", matmul(&a, &d), || (&x * &z).eval()),
                        2 | 3 => {}
                        4 => value(m, f, "DMatrix elementwise", a.zip(&b, mul), || x.mul_elemwise(&y).eval()),
                        5 => value(m, f, "DMatrix t", a.t(), || x.t().eval()),
                        _ => value(m, f, "DMatrix h", a.t(), || x.h().eval()),
                    },
                }
                kept(&y, &b, "a matrix operation");
                kept(&z, &d, "a matrix operation");
            }
        }
    };
}
number!(i8_, i8, 8);
number!(i16_, i16, 16);
number!(i32_, i32, 32);
number!(i64_, i64, 64);
number!(i128_, i128, 128);
number!(f32_, f32, 0);
number!(f64_, f64, 0);
