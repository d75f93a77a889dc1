//! The data-structure families: for every public operation one entry of a
//! menu, with its exact model result and a closure running the real code.

use crate::ctx::{self, chance, event, idx, lib, range, weighted, K};
use crate::elem::*;
use magnesia::algebra::*;
use magnesia::linalg::*;

/// An index that a container of `n` entries must refuse: just behind the end,
/// or so far out that offsets computed from it wrap around.
fn beyond(n: usize) -> usize {
    match idx(6) {
        0 | 1 => n + idx(3),
        2 => n + 1000,
        3 => usize::MAX - idx(4),
        // Multiples of these by small even numbers are 0 modulo the word size.
        4 => (1 << range(60, 63)) + idx(n + 1),
        // An offset r * n + c wraps around to something small.
        _ => (usize::MAX / n.max(2)).wrapping_add(1 + idx(2)).max(n),
    }
}

/// Model of every object and every result: a shape and its entries.
#[derive(Clone, PartialEq, Debug)]
pub struct Arr {
    pub r: usize,
    pub c: usize,
    pub d: Vec<M>,
}
impl Arr {
    pub fn new(r: usize, c: usize, d: Vec<M>) -> Arr {
        Arr { r, c, d }
    }
    pub fn vec(d: Vec<M>) -> Arr {
        Arr { r: d.len(), c: 1, d }
    }
    pub fn one(m: M) -> Arr {
        Arr::new(1, 1, vec![m])
    }
    pub fn flag(b: bool) -> Arr {
        Arr::one(vec![b as u64])
    }
    pub fn from_fn(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> M) -> Arr {
        let d = (0..r * c).map(|k| f(k / c, k % c)).collect();
        Arr { r, c, d }
    }
    pub fn at(&self, r: usize, c: usize) -> &M {
        &self.d[r * self.c + c]
    }
    pub fn map(&self, f: impl Fn(&M) -> M) -> Arr {
        Arr::new(self.r, self.c, self.d.iter().map(f).collect())
    }
    pub fn zip(&self, o: &Arr, f: impl Fn(&M, &M) -> M) -> Arr {
        assert!(self.same(o));
        Arr::new(self.r, self.c, self.d.iter().zip(&o.d).map(|(a, b)| f(a, b)).collect())
    }
    pub fn same(&self, o: &Arr) -> bool {
        self.r == o.r && self.c == o.c
    }
    pub fn t(&self) -> Arr {
        Arr::from_fn(self.c, self.r, |r, c| self.at(c, r).clone())
    }
    pub fn show(&self) -> String {
        let v: Vec<String> = self
            .d
            .iter()
            .take(24)
            .map(|m| m.iter().map(|&x| show(x)).collect::<Vec<_>>().join("|"))
            .collect();
        format!("{}x{}[{}{}]", self.r, self.c, v.join(" "), if self.d.len() > 24 { " .." } else { "" })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cat {
    Mul,
    Entry,
    Value,
    Reject,
    Late,
}
pub enum Ret<O> {
    Obj(O),
    Arr(Arr),
}
pub type RefFn<O> = Box<dyn Fn(&[O]) -> Ret<O>>;
pub type Later = Box<dyn FnOnce() -> Arr>;
pub enum Run<O> {
    Mut(Box<dyn Fn(&mut [O])>),
    Ref(RefFn<O>),
    Late(Box<dyn Fn(&[O]) -> Later>),
}
pub struct Op<O> {
    pub name: String,
    pub cat: Cat,
    pub tgt: usize,
    pub expect: Arr,
    pub run: Run<O>,
}

pub trait Obj: Sized + 'static {
    /// True if entries beyond the end read as zero (polynomials).
    const OPEN: bool = false;
    fn fam() -> String;
    fn shape() -> (usize, usize);
    fn gen(shape: (usize, usize)) -> Arr;
    fn norm(a: Arr) -> Arr {
        a
    }
    fn build(a: &Arr) -> Self;
    fn read(&self, guess: &Arr) -> Arr;
    fn dup(&self) -> Self;
    fn menu() -> Vec<(&'static str, Cat)>;
    fn make(name: &'static str, m: &[Arr]) -> Option<Op<Self>>;
}

/// Sizes: mostly small, sometimes around powers of two.
pub fn pick_len() -> usize {
    match weighted(&[1500, 360, 90, 30, 3, 1]) {
        0 => range(0, 5),
        1 => range(6, 12),
        2 => range(13, 34),
        3 => [63, 64, 65, 66, 127, 128, 129, 130][idx(8)],
        4 => [200, 255, 256, 257, 258, 300, 511, 513][idx(8)],
        _ => [1000, 1023, 1024, 1025, 1026, 1027, 2049, 4097][idx(8)],
    }
}
fn pick_dim() -> usize {
    match weighted(&[1200, 300, 30, 4, 1]) {
        0 => range(0, 4),
        1 => range(5, 9),
        2 => [10, 12, 16, 17, 31, 32, 33][idx(7)],
        3 => [40, 63, 64, 65, 66, 100][idx(6)],
        _ => [128, 129, 255, 256, 257, 300][idx(6)],
    }
}

#[derive(Clone)]
pub enum Src {
    Slot(usize),
    Fresh(Arr),
}
impl Src {
    fn model<'a>(&'a self, m: &'a [Arr]) -> &'a Arr {
        match self {
            Src::Slot(j) => &m[*j],
            Src::Fresh(a) => a,
        }
    }
    fn own<O: Obj>(&self, s: &[O]) -> O {
        match self {
            Src::Slot(j) => s[*j].dup(),
            Src::Fresh(a) => O::build(a),
        }
    }
}
/// Another operand: a slot the filter accepts, or a fresh value.
fn other<O: Obj>(m: &[Arr], ok: impl Fn(usize, &Arr) -> bool, shape: (usize, usize)) -> Src {
    let c: Vec<usize> = (0..m.len()).filter(|&j| ok(j, &m[j])).collect();
    if !c.is_empty() && !chance(1, 4) {
        Src::Slot(c[idx(c.len())])
    } else {
        Src::Fresh(O::gen(shape))
    }
}

fn op<O>(name: &str, cat: Cat, tgt: usize, expect: Arr, run: Run<O>) -> Option<Op<O>> {
    Some(Op { name: name.to_string(), cat, tgt, expect, run })
}
fn val1<O: Obj>(name: &str, i: usize, expect: Arr, f: impl Fn(&O) -> Ret<O> + 'static) -> Option<Op<O>> {
    op(name, Cat::Value, i, expect, Run::Ref(Box::new(move |s| f(&s[i]))))
}
fn val2<O: Obj>(name: &str, i: usize, b: Src, expect: Arr, f: impl Fn(&O, &O) -> Ret<O> + 'static) -> Option<Op<O>> {
    op(name, Cat::Value, i, expect, Run::Ref(Box::new(move |s| match &b {
        Src::Slot(j) => f(&s[i], &s[*j]),
        Src::Fresh(a) => {
            let y = O::build(a);
            f(&s[i], &y)
        }
    })))
}
fn mut1<O: Obj>(name: &str, cat: Cat, i: usize, expect: Arr, f: impl Fn(&mut O) + 'static) -> Option<Op<O>> {
    op(name, cat, i, expect, Run::Mut(Box::new(move |s| f(&mut s[i]))))
}
fn mut2<O: Obj>(name: &str, cat: Cat, i: usize, b: Src, expect: Arr, f: impl Fn(&mut O, &O) + 'static) -> Option<Op<O>> {
    op(name, cat, i, expect, Run::Mut(Box::new(move |s| match &b {
        Src::Slot(j) if *j != i => {
            let (x, y) = if i < *j {
                let (l, r) = s.split_at_mut(*j);
                (&mut l[i], &r[0])
            } else {
                let (l, r) = s.split_at_mut(i);
                (&mut r[0], &l[*j])
            };
            f(x, y)
        }
        src => {
            let y = src.own(s);
            f(&mut s[i], &y)
        }
    })))
}
fn mut2o<O: Obj>(name: &str, cat: Cat, i: usize, b: Src, expect: Arr, f: impl Fn(&mut O, O) + 'static) -> Option<Op<O>> {
    op(name, cat, i, expect, Run::Mut(Box::new(move |s| {
        let y = b.own(s);
        f(&mut s[i], y)
    })))
}
/// As a rejected operation.
fn rej<O>(o: Option<Op<O>>) -> Option<Op<O>> {
    o.map(|mut o| {
        o.cat = Cat::Reject;
        o
    })
}
fn none() -> Arr {
    Arr::new(0, 0, vec![])
}
fn gen_arr<T: Elem>(r: usize, c: usize) -> Arr {
    let mut v = Vals::pick();
    Arr::from_fn(r, c, |_, _| v.elem::<T>())
}
fn mks<T: Elem>(a: &Arr) -> Vec<T> {
    a.d.iter().map(|m| T::mk(m)).collect()
}
fn sum<T: Elem>(it: impl Iterator<Item = M>) -> M {
    it.fold(T::mzero(), |a, b| xadd::<T>(&a, &b))
}

// ---- Polynomial ---------------------------------------------------------

fn pzip<T: Elem>(a: &Arr, b: &Arr, f: impl Fn(&M, &M) -> M) -> Arr {
    let z = T::mzero();
    let n = a.r.max(b.r);
    Arr::vec((0..n).map(|i| f(a.d.get(i).unwrap_or(&z), b.d.get(i).unwrap_or(&z))).collect())
}
pub fn pmul<T: Elem>(a: &Arr, b: &Arr) -> Arr {
    if a.r == 0 || b.r == 0 {
        return Arr::vec(vec![]);
    }
    let mut d = vec![T::mzero(); a.r + b.r - 1];
    for i in 0..a.r {
        for j in 0..b.r {
            d[i + j] = xadd::<T>(&d[i + j], &T::mmul(&a.d[i], &b.d[j]));
        }
    }
    Arr::vec(d)
}

impl<T: Elem> Obj for Polynomial<T> {
    const OPEN: bool = true;
    fn fam() -> String {
        format!("Polynomial<{}>", T::NAME)
    }
    fn shape() -> (usize, usize) {
        (pick_len().min(1030), 1)
    }
    fn gen((r, _): (usize, usize)) -> Arr {
        gen_arr::<T>(r, 1)
    }
    fn norm(mut a: Arr) -> Arr {
        while a.d.last().is_some_and(|m| m.iter().all(|&x| x == 0)) {
            a.d.pop();
        }
        a.r = a.d.len();
        a.c = 1;
        a
    }
    fn build(a: &Arr) -> Self {
        Polynomial::from_coefficients(mks(a))
    }
    fn read(&self, guess: &Arr) -> Arr {
        // Two independent fingerprints, then interpolation if they differ.
        const Q: u64 = 0x1B2C_3D4E_5F60_718;
        if peek(self, FP) == eval_at::<T>(&guess.d, FP) && peek(self, Q) == eval_at::<T>(&guess.d, Q) {
            return guess.clone();
        }
        Arr::vec(read_poly(self, guess.r + 4))
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn menu() -> Vec<(&'static str, Cat)> {
        use Cat::*;
        vec![
            ("eval_ref", Value), ("eval", Value), ("add", Value), ("sub", Value), ("mul", Value),
            ("mul_ref", Value), ("neg", Value), ("zero", Value), ("one", Value), ("clone", Value),
            ("eq", Value), ("mul_refs", Value),
            ("+=own", Entry), ("+=ref", Entry), ("-=own", Entry), ("-=ref", Entry),
            ("*=own", Mul),
        ]
    }
    fn make(name: &'static str, m: &[Arr]) -> Option<Op<Self>> {
        let i = idx(m.len());
        let a = m[i].clone();
        let b = || {
            if chance(1, 8) {
                Src::Slot(i)
            } else {
                other::<Self>(m, |j, _| j != i, Self::shape())
            }
        };
        match name {
            "eval_ref" | "eval" => {
                let x = rnd_elem::<T>();
                let mut y = T::mzero();
                for c in a.d.iter().rev() {
                    y = xadd::<T>(&T::mmul(&y, &x), c);
                }
                if name == "eval" {
                    val1::<Self>(name, i, Arr::one(y), move |p| {
                        let x = T::mk(&x);
                        Ret::Arr(Arr::one(lib(|| p.eval(x)).rd()))
                    })
                } else {
                    val1::<Self>(name, i, Arr::one(y), move |p| {
                        let x = T::mk(&x);
                        Ret::Arr(Arr::one(lib(|| p.eval_ref(&x)).rd()))
                    })
                }
            }
            "add" | "sub" | "mul" | "mul_ref" | "mul_refs" => {
                let b = b();
                let bm = b.model(m);
                if name.starts_with("mul") && a.r + bm.r > 2100 {
                    return None;
                }
                let e = match name {
                    "add" => pzip::<T>(&a, bm, xadd::<T>),
                    "sub" => pzip::<T>(&a, bm, xsub::<T>),
                    _ => pmul::<T>(&a, bm),
                };
                val2::<Self>(name, i, b, e, move |p, q| {
                    Ret::Obj(match name {
                        "mul_ref" => lib(|| p * q),
                        "mul_refs" => lib(|| p.mul_refs(q)),
                        _ => {
                            let (p, q) = (p.dup(), q.dup());
                            lib(|| match name {
                                "add" => p + q,
                                "sub" => p - q,
                                _ => p * q,
                            })
                        }
                    })
                })
            }
            "neg" => val1::<Self>(name, i, a.map(xneg::<T>), |p| {
                let p = p.dup();
                Ret::Obj(lib(|| -p))
            }),
            "zero" => val1::<Self>(name, i, Arr::vec(vec![]), |_| Ret::Obj(lib(Self::zero))),
            "one" => val1::<Self>(name, i, Arr::vec(vec![T::mone()]), |_| Ret::Obj(lib(Self::one))),
            "clone" => val1::<Self>(name, i, a, |p| Ret::Obj(lib(|| p.clone()))),
            "eq" => {
                // Only comparisons whose answer does not depend on how
                // trailing zeros are represented.
                let b = b();
                let same = chance(1, 2);
                if !same && Self::norm(b.model(m).clone()) == Self::norm(a) {
                    return None;
                }
                val2::<Self>(name, i, b, Arr::flag(same), move |p, q| {
                    let c = p.dup();
                    Ret::Arr(Arr::flag(lib(|| if same { *p == c } else { p == q })))
                })
            }
            "+=own" | "-=own" | "*=own" => {
                let b = b();
                let bm = b.model(m);
                match name {
                    "+=own" => {
                        let e = pzip::<T>(&a, bm, xadd::<T>);
                        mut2o::<Self>(name, Cat::Entry, i, b, e, |p, q| lib(|| *p += q))
                    }
                    "-=own" => {
                        let e = pzip::<T>(&a, bm, xsub::<T>);
                        mut2o::<Self>(name, Cat::Entry, i, b, e, |p, q| lib(|| *p -= q))
                    }
                    _ if a.r + bm.r > 2100 => None,
                    _ => {
                        let e = pmul::<T>(&a, bm);
                        mut2o::<Self>(name, Cat::Mul, i, b, e, |p, q| lib(|| *p *= q))
                    }
                }
            }
            "+=ref" | "-=ref" => {
                let b = b();
                let bm = b.model(m);
                if name == "+=ref" {
                    let e = pzip::<T>(&a, bm, xadd::<T>);
                    mut2::<Self>(name, Cat::Entry, i, b, e, |p, q| lib(|| *p += q))
                } else {
                    let e = pzip::<T>(&a, bm, xsub::<T>);
                    mut2::<Self>(name, Cat::Entry, i, b, e, |p, q| lib(|| *p -= q))
                }
            }
            _ => unreachable!(),
        }
    }
}

// ---- Complex ------------------------------------------------------------

fn carr(m: M) -> Arr {
    Arr::new(2, 1, vec![vec![m[0]], vec![m[1]]])
}
fn cm(a: &Arr) -> M {
    vec![a.d[0][0], a.d[1][0]]
}

impl Obj for Complex<E> {
    fn fam() -> String {
        "Complex<E>".into()
    }
    fn shape() -> (usize, usize) {
        (2, 1)
    }
    fn gen(_: (usize, usize)) -> Arr {
        gen_arr::<E>(2, 1)
    }
    fn build(a: &Arr) -> Self {
        CE::mk(&cm(a))
    }
    fn read(&self, _: &Arr) -> Arr {
        carr(self.rd())
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn menu() -> Vec<(&'static str, Cat)> {
        use Cat::*;
        vec![
            ("add", Value), ("sub", Value), ("mul", Value), ("mul_ref", Value), ("mul_scalar", Value),
            ("div", Value), ("div_ref", Value), ("div_scalar", Value), ("div_ref_scalar", Value),
            ("div_own_ref_scalar", Value), ("neg", Value), ("conj", Value), ("sqr_norm", Value),
            ("zero", Value), ("one", Value), ("clone", Value), ("eq", Value),
            ("+=own", Entry), ("+=ref", Entry), ("-=own", Entry), ("-=ref", Entry), ("*=own", Mul),
            ("*=own", Mul),
        ]
    }
    fn make(name: &'static str, m: &[Arr]) -> Option<Op<Self>> {
        let i = idx(m.len());
        let am = cm(&m[i]);
        let bounded = BOUND.load(std::sync::atomic::Ordering::Relaxed) != 0;
        if bounded && name.starts_with("div") {
            return None;
        }
        let b = if chance(1, 8) { Src::Slot(i) } else { other::<Self>(m, |j, _| j != i, (2, 1)) };
        let bm = cm(b.model(m));
        let s = rnd_elem::<E>();
        let each = |f: &dyn Fn(u64, u64) -> u64| carr(vec![f(am[0], s[0]), f(am[1], s[0])]);
        match name {
            "add" | "sub" | "mul" | "div" => {
                let e = carr(match name {
                    "add" => xadd::<CE>(&am, &bm),
                    "sub" => xsub::<CE>(&am, &bm),
                    "mul" => <CE as Elem>::mmul(&am, &bm),
                    _ => <CE as Elem>::mdiv(&am, &bm),
                });
                val2::<Self>(name, i, b, e, move |p, q| {
                    let (p, q) = (p.dup(), q.dup());
                    Ret::Obj(lib(|| match name {
                        "add" => p + q,
                        "sub" => p - q,
                        "mul" => p * q,
                        _ => p / q,
                    }))
                })
            }
            "mul_ref" => val2::<Self>(name, i, b, carr(<CE as Elem>::mmul(&am, &bm)), |p, q| Ret::Obj(lib(|| p * q))),
            "div_ref" => val2::<Self>(name, i, b, carr(<CE as Elem>::mdiv(&am, &bm)), |p, q| Ret::Obj(lib(|| p / q))),
            "mul_scalar" => val1::<Self>(name, i, each(&mmul), move |p| {
                let (p, s) = (p.dup(), E::mk(&s));
                Ret::Obj(lib(|| p * s))
            }),
            "div_scalar" => val1::<Self>(name, i, each(&mdiv), move |p| {
                let (p, s) = (p.dup(), E::mk(&s));
                Ret::Obj(lib(|| p / s))
            }),
            "div_ref_scalar" => val1::<Self>(name, i, each(&mdiv), move |p| {
                let s = E::mk(&s);
                Ret::Obj(lib(|| p / &s))
            }),
            "div_own_ref_scalar" => val1::<Self>(name, i, each(&mdiv), move |p| {
                let (p, s) = (p.dup(), E::mk(&s));
                Ret::Obj(lib(|| p / &s))
            }),
            "neg" => val1::<Self>(name, i, m[i].map(xneg::<E>), |p| {
                let p = p.dup();
                Ret::Obj(lib(|| -p))
            }),
            "conj" => val1::<Self>(name, i, carr(<CE as Elem>::mconj(&am)), |p| {
                let p = p.dup();
                Ret::Obj(lib(|| p.conj()))
            }),
            "sqr_norm" => {
                let n = madd(mmul(am[0], am[0]), mmul(am[1], am[1]));
                val1::<Self>(name, i, Arr::one(vec![n]), |p| Ret::Arr(Arr::one(lib(|| p.sqr_norm()).rd())))
            }
            "zero" => val1::<Self>(name, i, carr(vec![0, 0]), |_| Ret::Obj(lib(Self::zero))),
            "one" => val1::<Self>(name, i, carr(vec![1, 0]), |_| Ret::Obj(lib(Self::one))),
            "clone" => val1::<Self>(name, i, m[i].clone(), |p| Ret::Obj(lib(|| p.clone()))),
            "eq" => val2::<Self>(name, i, b, Arr::flag(am == bm), |p, q| Ret::Arr(Arr::flag(lib(|| p == q)))),
            "+=own" => mut2o::<Self>(name, Cat::Entry, i, b, carr(xadd::<CE>(&am, &bm)), |p, q| lib(|| *p += q)),
            "-=own" => mut2o::<Self>(name, Cat::Entry, i, b, carr(xsub::<CE>(&am, &bm)), |p, q| lib(|| *p -= q)),
            "+=ref" => mut2::<Self>(name, Cat::Entry, i, b, carr(xadd::<CE>(&am, &bm)), |p, q| lib(|| *p += q)),
            "-=ref" => mut2::<Self>(name, Cat::Entry, i, b, carr(xsub::<CE>(&am, &bm)), |p, q| lib(|| *p -= q)),
            "*=own" => mut2o::<Self>(name, Cat::Mul, i, b, carr(<CE as Elem>::mmul(&am, &bm)), |p, q| lib(|| *p *= q)),
            _ => unreachable!(),
        }
    }
}

// ---- SVector ------------------------------------------------------------

impl<T: Elem, const D: usize> Obj for SVector<T, D> {
    fn fam() -> String {
        format!("SVector<{},{D}>", T::NAME)
    }
    fn shape() -> (usize, usize) {
        (D, 1)
    }
    fn gen(_: (usize, usize)) -> Arr {
        gen_arr::<T>(D, 1)
    }
    fn build(a: &Arr) -> Self {
        SVector(std::array::from_fn(|k| T::mk(&a.d[k])))
    }
    fn read(&self, _: &Arr) -> Arr {
        Arr::vec(self.0.iter().map(|x| x.rd()).collect())
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn menu() -> Vec<(&'static str, Cat)> {
        use Cat::*;
        vec![
            ("add", Value), ("add_ref", Value), ("sub", Value), ("sub_ref", Value), ("dot", Value),
            ("dot_ref", Value), ("mul_scalar", Value), ("mul_ref_scalar", Value), ("zero", Value),
            ("from", Value), ("clone", Value), ("index", Value), ("into_iter", Value),
            ("iter_ref", Value), ("eq", Value),
            ("+=own", Entry), ("+=ref", Entry), ("-=own", Entry), ("-=ref", Entry), ("*=scalar", Entry),
            ("*=ref_scalar", Entry), ("set", Entry), ("index+=", Entry), ("iter_mut", Entry),
            ("get_oob", Reject), ("set_oob", Reject),
        ]
    }
    fn make(name: &'static str, m: &[Arr]) -> Option<Op<Self>> {
        let i = idx(m.len());
        let a = m[i].clone();
        let b = if chance(1, 8) { Src::Slot(i) } else { other::<Self>(m, |j, _| j != i, (D, 1)) };
        let bm = b.model(m).clone();
        let addm = || a.zip(&bm, xadd::<T>);
        let subm = || a.zip(&bm, xsub::<T>);
        let dotm = || Arr::one(sum::<T>((0..D).map(|k| T::mmul(&a.d[k], &bm.d[k]))));
        match name {
            "add" | "sub" => {
                let plus = name == "add";
                val2::<Self>(name, i, b, if plus { addm() } else { subm() }, move |p, q| {
                    let (p, q) = (p.dup(), q.dup());
                    Ret::Obj(lib(|| if plus { p + q } else { p - q }))
                })
            }
            "add_ref" | "sub_ref" => {
                let plus = name == "add_ref";
                val2::<Self>(name, i, b, if plus { addm() } else { subm() }, move |p, q| {
                    let p = p.dup();
                    Ret::Obj(lib(|| if plus { p + q } else { p - q }))
                })
            }
            "dot" => val2::<Self>(name, i, b, dotm(), |p, q| {
                let (p, q) = (p.dup(), q.dup());
                Ret::Arr(Arr::one(lib(|| p * q).rd()))
            }),
            "dot_ref" => val2::<Self>(name, i, b, dotm(), |p, q| {
                let p = p.dup();
                Ret::Arr(Arr::one(lib(|| p * q).rd()))
            }),
            "mul_scalar" | "mul_ref_scalar" => {
                let s = rnd_elem::<T>();
                let own = name == "mul_scalar";
                val1::<Self>(name, i, a.map(|x| T::mmul(x, &s)), move |p| {
                    let (p, s) = (p.dup(), T::mk(&s));
                    Ret::Obj(if own {
                        lib(|| <SVector<T, D> as std::ops::Mul<T>>::mul(p, s))
                    } else {
                        lib(|| <SVector<T, D> as std::ops::Mul<&T>>::mul(p, &s))
                    })
                })
            }
            "zero" => val1::<Self>(name, i, a.map(|_| T::mzero()), |_| Ret::Obj(lib(<Self as Zero>::zero))),
            "from" => {
                let g = Self::gen((D, 1));
                val1::<Self>(name, i, g.clone(), move |_| {
                    let x: [T; D] = std::array::from_fn(|k| T::mk(&g.d[k]));
                    Ret::Obj(lib(|| SVector::from(x)))
                })
            }
            "clone" => val1::<Self>(name, i, a, |p| Ret::Obj(lib(|| p.clone()))),
            "index" => {
                if D == 0 {
                    return None;
                }
                let k = idx(D);
                val1::<Self>(name, i, Arr::one(a.d[k].clone()), move |p| Ret::Arr(Arr::one(lib(|| &p[k]).rd())))
            }
            "into_iter" => val1::<Self>(name, i, a, |p| {
                let p = p.dup();
                let v: Vec<T> = lib(|| p.into_iter()).collect();
                Ret::Arr(Arr::vec(v.iter().map(|x| x.rd()).collect()))
            }),
            "iter_ref" => val1::<Self>(name, i, a, |p| {
                let it = lib(|| p.into_iter());
                Ret::Arr(Arr::vec(it.map(|x| x.rd()).collect()))
            }),
            // Equal polynomials may differ in trailing zeros (DESIGN.md, C18).
            "eq" if T::DIM == 0 && a == bm => None,
            "eq" => val2::<Self>(name, i, b, Arr::flag(a == bm), |p, q| Ret::Arr(Arr::flag(lib(|| p == q)))),
            "+=own" => mut2o::<Self>(name, Cat::Entry, i, b, addm(), |p, q| lib(|| *p += q)),
            "-=own" => mut2o::<Self>(name, Cat::Entry, i, b, subm(), |p, q| lib(|| *p -= q)),
            "+=ref" => mut2::<Self>(name, Cat::Entry, i, b, addm(), |p, q| lib(|| *p += q)),
            "-=ref" => mut2::<Self>(name, Cat::Entry, i, b, subm(), |p, q| lib(|| *p -= q)),
            "*=scalar" | "*=ref_scalar" => {
                let s = rnd_elem::<T>();
                let own = name == "*=scalar";
                mut1::<Self>(name, Cat::Entry, i, a.map(|x| T::mmul(x, &s)), move |p| {
                    let s = T::mk(&s);
                    lib(|| if own { *p *= s } else { *p *= &s })
                })
            }
            "set" | "index+=" | "iter_mut" => {
                if D == 0 {
                    return None;
                }
                let k = idx(D);
                let s = rnd_elem::<T>();
                let mut e = a.clone();
                e.d[k] = if name == "index+=" { xadd::<T>(&a.d[k], &s) } else { s.clone() };
                mut1::<Self>(name, Cat::Entry, i, e, move |p| {
                    let s = T::mk(&s);
                    match name {
                        "set" => lib(|| p[k] = s),
                        "index+=" => lib(|| p[k] += &s),
                        _ => *lib(|| p.into_iter()).nth(k).unwrap() = s,
                    }
                })
            }
            "get_oob" => {
                let k = beyond(D);
                rej(val1::<Self>(name, i, none(), move |p| Ret::Arr(Arr::one(lib(|| &p[k]).rd()))))
            }
            "set_oob" => {
                let k = beyond(D);
                let s = rnd_elem::<T>();
                rej(mut1::<Self>(name, Cat::Entry, i, none(), move |p| {
                    let s = T::mk(&s);
                    lib(|| p[k] = s)
                }))
            }
            _ => unreachable!(),
        }
    }
}

// ---- SMatrix ------------------------------------------------------------

fn smm<T: Elem>(a: &Arr, b: &Arr) -> Arr {
    Arr::from_fn(a.r, b.c, |r, c| sum::<T>((0..a.c).map(|k| T::mmul(a.at(r, k), b.at(k, c)))))
}
fn sbuild<T: Elem, const R: usize, const C: usize>(a: &Arr) -> SMatrix<T, R, C> {
    SMatrix::from(std::array::from_fn::<[T; C], R, _>(|r| std::array::from_fn(|c| T::mk(a.at(r, c)))))
}
fn sread<T: Elem, const R: usize, const C: usize>(m: &SMatrix<T, R, C>) -> Arr {
    let mut out = Arr::from_fn(R, C, |_, _| T::mzero());
    for c in 0..C {
        let e = SVector::<T, C>(std::array::from_fn(|k| T::mk(&if k == c { T::mone() } else { T::mzero() })));
        let col = m * &e;
        for r in 0..R {
            out.d[r * C + c] = col.0[r].rd();
        }
    }
    out
}

impl<T: Elem + Conj, const R: usize, const C: usize> Obj for SMatrix<T, R, C> {
    fn fam() -> String {
        format!("SMatrix<{},{R},{C}>", T::NAME)
    }
    fn shape() -> (usize, usize) {
        (R, C)
    }
    fn gen(_: (usize, usize)) -> Arr {
        gen_arr::<T>(R, C)
    }
    fn build(a: &Arr) -> Self {
        sbuild(a)
    }
    fn read(&self, _: &Arr) -> Arr {
        sread(self)
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn menu() -> Vec<(&'static str, Cat)> {
        use Cat::*;
        vec![
            ("add", Value), ("add_ref", Value), ("sub", Value), ("sub_ref", Value), ("mul1", Value),
            ("mul2", Value), ("mul3", Value), ("mulC_own", Value), ("matvec", Value), ("neg", Value),
            ("conj", Value), ("zero", Value), ("one", Value), ("clone", Value), ("eq", Value),
            ("+=own", Entry), ("+=ref", Entry), ("-=own", Entry), ("-=ref", Entry),
            ("*=own", Mul), ("*=ref", Mul),
        ]
    }
    fn make(name: &'static str, m: &[Arr]) -> Option<Op<Self>> {
        let i = idx(m.len());
        let a = m[i].clone();
        let b = if chance(1, 8) { Src::Slot(i) } else { other::<Self>(m, |j, _| j != i, (R, C)) };
        let bm = b.model(m).clone();
        let addm = || a.zip(&bm, xadd::<T>);
        let subm = || a.zip(&bm, xsub::<T>);
        fn prod<T: Elem + Conj, const R: usize, const C: usize, const W: usize>(
            name: &str,
            i: usize,
            a: &Arr,
        ) -> Option<Op<SMatrix<T, R, C>>> {
            let g = gen_arr::<T>(C, W);
            let own = chance(1, 2);
            val1::<SMatrix<T, R, C>>(name, i, smm::<T>(a, &g), move |p: &SMatrix<T, R, C>| {
                let q: SMatrix<T, C, W> = sbuild(&g);
                let r: SMatrix<T, R, W> = if own {
                    let p = p.dup();
                    lib(|| p * q)
                } else {
                    lib(|| p * &q)
                };
                Ret::Arr(sread(&r))
            })
        }
        match name {
            "add" | "sub" => {
                let plus = name == "add";
                val2::<Self>(name, i, b, if plus { addm() } else { subm() }, move |p, q| {
                    let (p, q) = (p.dup(), q.dup());
                    Ret::Obj(lib(|| if plus { p + q } else { p - q }))
                })
            }
            "add_ref" | "sub_ref" => {
                let plus = name == "add_ref";
                val2::<Self>(name, i, b, if plus { addm() } else { subm() }, move |p, q| {
                    let p = p.dup();
                    Ret::Obj(lib(|| if plus { p + q } else { p - q }))
                })
            }
            "mul1" => prod::<T, R, C, 1>(name, i, &a),
            "mul2" => prod::<T, R, C, 2>(name, i, &a),
            "mul3" => prod::<T, R, C, 3>(name, i, &a),
            "mulC_own" => prod::<T, R, C, C>(name, i, &a),
            "matvec" => {
                let g = gen_arr::<T>(C, 1);
                val1::<Self>(name, i, smm::<T>(&a, &g), move |p| {
                    let v: SVector<T, C> = SVector::build(&g);
                    let r = lib(|| p * &v);
                    Ret::Arr(r.read(&none()))
                })
            }
            "neg" => val1::<Self>(name, i, a.map(xneg::<T>), |p| {
                let p = p.dup();
                Ret::Obj(lib(|| -p))
            }),
            "conj" => val1::<Self>(name, i, a.map(T::mconj), |p| {
                let p = p.dup();
                Ret::Obj(lib(|| p.conj()))
            }),
            "zero" => val1::<Self>(name, i, a.map(|_| T::mzero()), |_| Ret::Obj(lib(<Self as Zero>::zero))),
            "one" => {
                let e = Arr::from_fn(R, C, |r, c| if r == c { T::mone() } else { T::mzero() });
                val1::<Self>(name, i, e, |_| Ret::Obj(lib(<Self as One>::one)))
            }
            "clone" => val1::<Self>(name, i, a, |p| Ret::Obj(lib(|| p.clone()))),
            // Equal polynomials may differ in trailing zeros (DESIGN.md, C18).
            "eq" if T::DIM == 0 && a == bm => None,
            "eq" => val2::<Self>(name, i, b, Arr::flag(a == bm), |p, q| Ret::Arr(Arr::flag(lib(|| p == q)))),
            "+=own" => mut2o::<Self>(name, Cat::Entry, i, b, addm(), |p, q| lib(|| *p += q)),
            "-=own" => mut2o::<Self>(name, Cat::Entry, i, b, subm(), |p, q| lib(|| *p -= q)),
            "+=ref" => mut2::<Self>(name, Cat::Entry, i, b, addm(), |p, q| lib(|| *p += q)),
            "-=ref" => mut2::<Self>(name, Cat::Entry, i, b, subm(), |p, q| lib(|| *p -= q)),
            "*=own" | "*=ref" => {
                let g = gen_arr::<T>(C, C);
                let own = name == "*=own";
                mut1::<Self>(name, Cat::Mul, i, smm::<T>(&a, &g), move |p| {
                    let q: SMatrix<T, C, C> = sbuild(&g);
                    lib(|| if own { *p *= q } else { *p *= &q })
                })
            }
            _ => unreachable!(),
        }
    }
}

// ---- dynamic vectors and matrices ---------------------------------------

/// Elements of the dynamic families; division only where it exists.
pub trait DElem: Elem + Conj {
    const DIV: bool;
    fn div_v(a: &DVector<Self>, b: DVector<Self>, wrap: bool) -> DVector<Self>;
    fn div_m(a: &DMatrix<Self>, b: DMatrix<Self>, wrap: bool) -> DMatrix<Self>;
    fn div_v_only(a: &DVector<Self>, n: usize);
    fn div_m_only(a: &DMatrix<Self>, r: usize, c: usize);
}
macro_rules! delem {
    ($t:ty) => {
        impl DElem for $t {
            const DIV: bool = true;
            fn div_v(a: &DVector<Self>, b: DVector<Self>, wrap: bool) -> DVector<Self> {
                if wrap {
                    a.wrap().div_elemwise(&b).eval()
                } else {
                    a.div_elemwise(b).eval()
                }
            }
            fn div_m(a: &DMatrix<Self>, b: DMatrix<Self>, wrap: bool) -> DMatrix<Self> {
                if wrap {
                    a.wrap().div_elemwise(&b).eval()
                } else {
                    a.div_elemwise(b).eval()
                }
            }
            fn div_v_only(a: &DVector<Self>, n: usize) {
                let _ = a.div_elemwise(gen_v::<Self>(n));
            }
            fn div_m_only(a: &DMatrix<Self>, r: usize, c: usize) {
                let _ = a.div_elemwise(gen_m::<Self>(r, c));
            }
        }
    };
}
delem!(E);
delem!(CE);
impl DElem for S2 {
    const DIV: bool = false;
    fn div_v(_: &DVector<Self>, _: DVector<Self>, _: bool) -> DVector<Self> {
        unreachable!()
    }
    fn div_m(_: &DMatrix<Self>, _: DMatrix<Self>, _: bool) -> DMatrix<Self> {
        unreachable!()
    }
    fn div_v_only(_: &DVector<Self>, _: usize) {
        unreachable!()
    }
    fn div_m_only(_: &DMatrix<Self>, _: usize, _: usize) {
        unreachable!()
    }
}

/// A user-supplied expression (not one of the library's): entry reads are
/// source events.
pub struct UserV<'a, T>(pub &'a [T]);
impl<T: Clone> VectorExpr for UserV<'_, T> {
    type Entry = T;
    fn entry(&self, i: usize) -> T {
        let _g = event(K::Source);
        self.0[i].clone()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}
pub struct UserM<'a, T>(pub &'a [T], pub usize, pub usize);
impl<T: Clone> MatrixExpr for UserM<'_, T> {
    type Entry = T;
    fn entry(&self, r: usize, c: usize) -> T {
        let _g = event(K::Source);
        assert!(r < self.1 && c < self.2);
        self.0[r * self.2 + c].clone()
    }
    fn num_rows(&self) -> usize {
        self.1
    }
    fn num_cols(&self) -> usize {
        self.2
    }
}
/// A generator of the given shape whose entries must never be asked for.
pub struct NoV<T>(usize, std::marker::PhantomData<T>);
impl<T: Elem> VectorExpr for NoV<T> {
    type Entry = T;
    fn entry(&self, _: usize) -> T {
        let _g = event(K::Source);
        T::mk(&T::mone())
    }
    fn len(&self) -> usize {
        self.0
    }
}
pub fn gen_v<T: Elem>(n: usize) -> NoV<T> {
    NoV(n, std::marker::PhantomData)
}
pub struct NoM<T>(usize, usize, std::marker::PhantomData<T>);
impl<T: Elem> MatrixExpr for NoM<T> {
    type Entry = T;
    fn entry(&self, _: usize, _: usize) -> T {
        let _g = event(K::Source);
        T::mk(&T::mone())
    }
    fn num_rows(&self) -> usize {
        self.0
    }
    fn num_cols(&self) -> usize {
        self.1
    }
}
pub fn gen_m<T: Elem>(r: usize, c: usize) -> NoM<T> {
    NoM(r, c, std::marker::PhantomData)
}

fn vread<T: Elem>(v: &DVector<T>) -> Arr {
    Arr::vec((0..v.len()).map(|k| v[k].rd()).collect())
}
fn mread<T: Elem>(m: &DMatrix<T>) -> Arr {
    Arr::from_fn(m.num_rows(), m.num_cols(), |r, c| m[[r, c]].rd())
}
fn vbuild<T: Elem>(a: &Arr) -> DVector<T> {
    let v: Vec<T> = mks(a);
    v.as_slice().eval()
}
fn mbuild<T: Elem>(a: &Arr) -> DMatrix<T> {
    make_matrix_expr(a.r, a.c, |r, c| T::mk(a.at(r, c))).eval()
}

impl<T: DElem> Obj for DVector<T> {
    fn fam() -> String {
        format!("DVector<{}>", T::NAME)
    }
    fn shape() -> (usize, usize) {
        (pick_len(), 1)
    }
    fn gen((r, _): (usize, usize)) -> Arr {
        gen_arr::<T>(r, 1)
    }
    fn build(a: &Arr) -> Self {
        vbuild(a)
    }
    fn read(&self, _: &Arr) -> Arr {
        vread(self)
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn menu() -> Vec<(&'static str, Cat)> {
        use Cat::*;
        let mut v = vec![
            ("add", Value), ("add_own", Value), ("add_wrap", Value), ("sub", Value), ("sub_own", Value),
            ("sub_wrap", Value), ("add_sub", Value), ("dot", Value), ("dot_own", Value),
            ("mul_elemwise", Value), ("mul_elemwise_wrap", Value), ("conj", Value), ("conj_wrap", Value),
            ("diag", Value), ("diag_wrap", Value), ("map", Value), ("zip", Value), ("slice", Value),
            ("zeros", Value), ("ones", Value), ("same", Value), ("make", Value), ("index", Value),
            ("eval_ref", Value), ("eval_own", Value), ("eval_wrap", Value), ("clone", Value), ("eq", Value),
            ("+=own", Entry), ("+=ref", Entry), ("+=slice", Entry), ("+=sum", Entry), ("+=map", Entry),
            ("+=user", Entry), ("-=own", Entry), ("-=ref", Entry), ("-=slice", Entry), ("-=sum", Entry),
            ("-=map", Entry), ("-=user", Entry), ("set", Entry), ("index+=", Entry), ("index-=", Entry),
            ("get_oob", Reject), ("set_oob", Reject), ("add_bad", Reject), ("sub_bad", Reject),
            ("add_wrap_bad", Reject), ("sub_wrap_bad", Reject), ("+=bad", Reject), ("-=bad", Reject),
            ("+=bad_ref", Reject), ("-=bad_ref", Reject), ("zip_bad", Reject),
            ("mul_elemwise_bad", Reject), ("dot_bad", Reject), ("dot_own_bad", Reject),
            ("late_sum", Late), ("late_same", Late), ("late_map", Late), ("late_diag", Late),
            ("late_clone", Late),
        ];
        if T::DIV {
            v.extend([("div_elemwise", Value), ("div_elemwise_wrap", Value), ("div_elemwise_bad", Reject)]);
        }
        v
    }
    fn make(name: &'static str, m: &[Arr]) -> Option<Op<Self>> {
        let i = idx(m.len());
        let a = m[i].clone();
        let n = a.r;
        if name.contains("div") && BOUND.load(std::sync::atomic::Ordering::Relaxed) != 0 {
            return None;
        }
        let bad_len = || {
            let mut k = if chance(1, 4) { 0 } else { n + 1 };
            if chance(1, 2) {
                k = if chance(1, 2) || n == 0 { n + 1 + idx(3) } else { n - 1 };
            }
            if k == n {
                n + 1
            } else {
                k
            }
        };
        let b = if chance(1, 8) {
            Src::Slot(i)
        } else {
            other::<Self>(m, |j, x| j != i && x.r == n, (n, 1))
        };
        let bm = b.model(m).clone();
        let addm = || a.zip(&bm, xadd::<T>);
        let subm = || a.zip(&bm, xsub::<T>);
        let ew = |v: DVector<T>| Ret::Obj(v);
        match name {
            "add" => val2::<Self>(name, i, b, addm(), move |p, q| ew(lib(|| (p + q).eval()))),
            "sub" => val2::<Self>(name, i, b, subm(), move |p, q| ew(lib(|| (p - q).eval()))),
            "add_own" => val2::<Self>(name, i, b, addm(), move |p, q| {
                let q = q.dup();
                ew(lib(|| (p + q).eval()))
            }),
            "sub_own" => val2::<Self>(name, i, b, subm(), move |p, q| {
                let q = q.dup();
                ew(lib(|| (p - q).eval()))
            }),
            "add_wrap" => val2::<Self>(name, i, b, addm(), move |p, q| {
                let p = p.dup();
                ew(lib(|| (p.wrap() + q.wrap()).eval()))
            }),
            "sub_wrap" => val2::<Self>(name, i, b, subm(), move |p, q| {
                let p = p.dup();
                ew(lib(|| (p.wrap() - q.wrap()).eval()))
            }),
            "add_sub" => {
                let c = gen_arr::<T>(n, 1);
                val2::<Self>(name, i, b, addm().zip(&c, xsub::<T>), move |p, q| {
                    let c = Self::build(&c);
                    ew(lib(|| (p + q - c).eval()))
                })
            }
            "dot" | "dot_own" => {
                let own = name == "dot_own";
                let e = sum::<T>((0..n).map(|k| T::mmul(&T::mconj(&a.d[k]), &bm.d[k])));
                val2::<Self>(name, i, b, Arr::one(e), move |p, q| {
                    Ret::Arr(Arr::one(
                        if own {
                            let (p, q) = (p.dup(), q.dup());
                            lib(|| p * q)
                        } else {
                            lib(|| p * q)
                        }
                        .rd(),
                    ))
                })
            }
            "mul_elemwise" => val2::<Self>(name, i, b, a.zip(&bm, T::mmul), move |p, q| ew(lib(|| p.mul_elemwise(q).eval()))),
            "mul_elemwise_wrap" => val2::<Self>(name, i, b, a.zip(&bm, T::mmul), move |p, q| {
                let p = p.dup();
                ew(lib(|| p.wrap().mul_elemwise(q).eval()))
            }),
            "div_elemwise" | "div_elemwise_wrap" => {
                let w = name != "div_elemwise";
                val2::<Self>(name, i, b, a.zip(&bm, T::mdiv), move |p, q| {
                    let q = q.dup();
                    ew(lib(|| T::div_v(p, q, w)))
                })
            }
            "conj" => val1::<Self>(name, i, a.map(T::mconj), move |p| ew(lib(|| p.conj().eval()))),
            "conj_wrap" => val1::<Self>(name, i, a.map(T::mconj), move |p| {
                let p = p.dup();
                ew(lib(|| p.wrap().conj().eval()))
            }),
            "diag" | "diag_wrap" => {
                if n > 130 {
                    return None;
                }
                let w = name == "diag_wrap";
                let e = Arr::from_fn(n, n, |r, c| if r == c { a.d[r].clone() } else { T::mzero() });
                val1::<Self>(name, i, e, move |p| {
                    Ret::Arr(mread(&if w {
                        let p = p.dup();
                        lib(|| p.wrap().diag().eval())
                    } else {
                        lib(|| p.diag().eval())
                    }))
                })
            }
            "map" => {
                let s = rnd_elem::<T>();
                val1::<Self>(name, i, a.map(|x| T::mmul(x, &s)), move |p| {
                    let s = T::mk(&s);
                    ew(lib(|| p.wrap().map(|x| {
                        let _g = event(K::Source);
                        x.mul_refs(&s)
                    }).eval()))
                })
            }
            "zip" => val2::<Self>(name, i, b, subm(), move |p, q| ew(lib(|| p.wrap().zip(q).map(|(x, y)| x - y).eval()))),
            "slice" => {
                let g = gen_arr::<T>(n, 1);
                val1::<Self>(name, i, g.clone(), move |_| {
                    let v: Vec<T> = mks(&g);
                    ew(lib(|| v.as_slice().eval()))
                })
            }
            "zeros" => {
                let k = pick_len();
                val1::<Self>(name, i, Arr::vec(vec![T::mzero(); k]), move |_| ew(lib(|| DVector::<T>::zeros(k).eval())))
            }
            "ones" => {
                let k = pick_len();
                val1::<Self>(name, i, Arr::vec(vec![T::mone(); k]), move |_| ew(lib(|| DVector::<T>::ones(k).eval())))
            }
            "same" => {
                let k = pick_len();
                let s = rnd_elem::<T>();
                val1::<Self>(name, i, Arr::vec(vec![s.clone(); k]), move |_| {
                    let s = T::mk(&s);
                    ew(lib(|| DVector::<T>::same(k, s).eval()))
                })
            }
            "make" => {
                let g = gen_arr::<T>(n, 1);
                val1::<Self>(name, i, g.clone(), move |_| {
                    ew(lib(|| make_vector_expr(n, |k| {
                        let _g = event(K::Source);
                        T::mk(&g.d[k])
                    }).eval()))
                })
            }
            "index" => {
                if n == 0 {
                    return None;
                }
                let k = idx(n);
                val1::<Self>(name, i, Arr::one(a.d[k].clone()), move |p| Ret::Arr(Arr::one(lib(|| &p[k]).rd())))
            }
            "eval_ref" => val1::<Self>(name, i, a, move |p| ew(lib(|| p.eval()))),
            "eval_own" => val1::<Self>(name, i, a, move |p| {
                let p = p.dup();
                ew(lib(|| VectorExpr::eval(p)))
            }),
            "eval_wrap" => val1::<Self>(name, i, a, move |p| ew(lib(|| p.wrap().eval()))),
            "clone" => val1::<Self>(name, i, a, |p| Ret::Obj(lib(|| p.clone()))),
            "eq" => {
                let b = other::<Self>(m, |_, _| true, (n, 1));
                let e = Arr::flag(*b.model(m) == a);
                val2::<Self>(name, i, b, e, |p, q| Ret::Arr(Arr::flag(lib(|| p == q))))
            }
            "+=own" => mut2o::<Self>(name, Cat::Entry, i, b, addm(), |p, q| lib(|| *p += q)),
            "-=own" => mut2o::<Self>(name, Cat::Entry, i, b, subm(), |p, q| lib(|| *p -= q)),
            "+=ref" => mut2::<Self>(name, Cat::Entry, i, b, addm(), |p, q| lib(|| *p += q)),
            "-=ref" => mut2::<Self>(name, Cat::Entry, i, b, subm(), |p, q| lib(|| *p -= q)),
            "+=slice" | "-=slice" | "+=user" | "-=user" => {
                let g = gen_arr::<T>(n, 1);
                let f = if name.starts_with('+') { xadd::<T> } else { xsub::<T> };
                mut1::<Self>(name, Cat::Entry, i, a.zip(&g, f), move |p| {
                    let v: Vec<T> = mks(&g);
                    let v = v.as_slice();
                    match name {
                        "+=slice" => lib(|| *p += v),
                        "-=slice" => lib(|| *p -= v),
                        "+=user" => lib(|| *p += UserV(v)),
                        _ => lib(|| *p -= UserV(v)),
                    }
                })
            }
            "+=sum" | "-=sum" => {
                let c = gen_arr::<T>(n, 1);
                let e = bm.zip(&c, xadd::<T>);
                let f = if name == "+=sum" { xadd::<T> } else { xsub::<T> };
                mut2::<Self>(name, Cat::Entry, i, b, a.zip(&e, f), move |p, q| {
                    let c = Self::build(&c);
                    if name == "+=sum" {
                        lib(|| *p += q + &c)
                    } else {
                        lib(|| *p -= q + &c)
                    }
                })
            }
            "+=map" | "-=map" => {
                let s = rnd_elem::<T>();
                let e = bm.map(|x| T::mmul(x, &s));
                let f = if name == "+=map" { xadd::<T> } else { xsub::<T> };
                mut2::<Self>(name, Cat::Entry, i, b, a.zip(&e, f), move |p, q| {
                    let s = T::mk(&s);
                    let g = |x: T| {
                        let _g = event(K::Source);
                        x.mul_refs(&s)
                    };
                    if name == "+=map" {
                        lib(|| *p += q.wrap().map(g))
                    } else {
                        lib(|| *p -= q.wrap().map(g))
                    }
                })
            }
            "set" | "index+=" | "index-=" => {
                if n == 0 {
                    return None;
                }
                let k = idx(n);
                let s = rnd_elem::<T>();
                let mut e = a.clone();
                e.d[k] = match name {
                    "set" => s.clone(),
                    "index+=" => xadd::<T>(&a.d[k], &s),
                    _ => xsub::<T>(&a.d[k], &s),
                };
                mut1::<Self>(name, Cat::Entry, i, e, move |p| {
                    let s = T::mk(&s);
                    match name {
                        "set" => lib(|| p[k] = s),
                        "index+=" => lib(|| p[k] += &s),
                        _ => lib(|| p[k] -= &s),
                    }
                })
            }
            "get_oob" => {
                let k = beyond(n);
                rej(val1::<Self>(name, i, none(), move |p| Ret::Arr(Arr::one(lib(|| &p[k]).rd()))))
            }
            "set_oob" => {
                let k = beyond(n);
                let s = rnd_elem::<T>();
                rej(mut1::<Self>(name, Cat::Entry, i, none(), move |p| {
                    let s = T::mk(&s);
                    lib(|| p[k] = s)
                }))
            }
            "+=bad" | "-=bad" => {
                let k = bad_len();
                if chance(1, 2) {
                    let b = Src::Fresh(gen_arr::<T>(k, 1));
                    return rej(mut2o::<Self>(name, Cat::Entry, i, b, none(), move |p, q| {
                        if name == "+=bad" {
                            lib(|| *p += q)
                        } else {
                            lib(|| *p -= q)
                        }
                    }));
                }
                rej(mut1::<Self>(name, Cat::Entry, i, none(), move |p| {
                    if name == "+=bad" {
                        lib(|| *p += gen_v::<T>(k))
                    } else {
                        lib(|| *p -= gen_v::<T>(k))
                    }
                }))
            }
            "+=bad_ref" | "-=bad_ref" => {
                let b = Src::Fresh(gen_arr::<T>(bad_len(), 1));
                rej(mut2::<Self>(name, Cat::Entry, i, b, none(), move |p, q| {
                    if name == "+=bad_ref" {
                        lib(|| *p += q)
                    } else {
                        lib(|| *p -= q)
                    }
                }))
            }
            "dot_bad" | "dot_own_bad" => {
                let b = other::<Self>(m, |_, x| x.r != n, (bad_len(), 1));
                rej(val2::<Self>(name, i, b, none(), move |p, q| {
                    Ret::Arr(Arr::one(
                        if name == "dot_bad" {
                            lib(|| p * q)
                        } else {
                            let (p, q) = (p.dup(), q.dup());
                            lib(|| p * q)
                        }
                        .rd(),
                    ))
                }))
            }
            "add_bad" | "sub_bad" | "add_wrap_bad" | "sub_wrap_bad" | "zip_bad" | "mul_elemwise_bad"
            | "div_elemwise_bad" => {
                let k = bad_len();
                if chance(1, 2) {
                    // Owned operands full of elements, which the refusal must drop.
                    let b = Src::Fresh(gen_arr::<T>(k, 1));
                    let own = chance(1, 2);
                    return rej(val2::<Self>(name, i, b, none(), move |p, q| {
                        let (x, y) = (p.dup(), q.dup());
                        lib(|| match name {
                            "add_bad" if own => drop(x.wrap() + y),
                            "sub_bad" if own => drop(x.wrap() - y),
                            "add_bad" => drop(p + y),
                            "sub_bad" => drop(p - y),
                            "add_wrap_bad" => drop(x.wrap() + y.wrap()),
                            "sub_wrap_bad" => drop(x.wrap() - y.wrap()),
                            "zip_bad" if own => drop(x.wrap().zip(y)),
                            "zip_bad" => drop(p.wrap().zip(y)),
                            "mul_elemwise_bad" if own => drop(x.wrap().mul_elemwise(y)),
                            "mul_elemwise_bad" => drop(p.mul_elemwise(y)),
                            _ => drop(T::div_v(p, y, own)),
                        });
                        Ret::Arr(none())
                    }));
                }
                rej(val1::<Self>(name, i, none(), move |p| {
                    let g = gen_v::<T>(k);
                    // Building the expression is already refused.
                    lib(|| match name {
                        "add_bad" => drop(p + g),
                        "sub_bad" => drop(p - g),
                        "add_wrap_bad" => drop(p.wrap() + g),
                        "sub_wrap_bad" => drop(p.wrap() - g),
                        "zip_bad" => drop(p.wrap().zip(g)),
                        "mul_elemwise_bad" => drop(p.mul_elemwise(g)),
                        _ => T::div_v_only(p, k),
                    });
                    Ret::Arr(none())
                }))
            }
            "late_sum" => op(name, Cat::Late, i, addm(), Run::Late(Box::new(move |s: &[Self]| {
                let (x, y) = (s[i].dup(), b.own(s));
                let e = lib(|| x.wrap() + y);
                Box::new(move || vread(&lib(|| e.eval())))
            }))),
            "late_same" => {
                if n == 0 {
                    return None;
                }
                let k = idx(n);
                op(name, Cat::Late, i, Arr::vec(vec![a.d[k].clone(); 3]), Run::Late(Box::new(move |s: &[Self]| {
                    let x = T::mk(&s[i][k].rd());
                    let e = lib(|| DVector::<T>::same(3, x));
                    Box::new(move || vread(&lib(|| e.eval())))
                })))
            }
            "late_map" => {
                let q = rnd_elem::<T>();
                op(name, Cat::Late, i, a.map(|x| xadd::<T>(x, &q)), Run::Late(Box::new(move |s: &[Self]| {
                    let (x, q) = (s[i].dup(), T::mk(&q));
                    let e = lib(|| x.wrap().map(move |mut v| {
                        v += &q;
                        v
                    }));
                    Box::new(move || vread(&lib(|| e.eval())))
                })))
            }
            "late_diag" => {
                let e = Arr::from_fn(n, n, |r, c| if r == c { T::mconj(&a.d[r]) } else { T::mzero() });
                op(name, Cat::Late, i, e, Run::Late(Box::new(move |s: &[Self]| {
                    let x = s[i].dup();
                    let e = lib(|| x.wrap().conj().diag());
                    Box::new(move || mread(&lib(|| e.eval())))
                })))
            }
            "late_clone" => op(name, Cat::Late, i, a, Run::Late(Box::new(move |s: &[Self]| {
                let x = lib(|| s[i].clone());
                Box::new(move || vread(&lib(|| VectorExpr::eval(x))))
            }))),
            _ => unreachable!("{name}"),
        }
    }
}

impl<T: DElem> Obj for DMatrix<T> {
    fn fam() -> String {
        format!("DMatrix<{}>", T::NAME)
    }
    fn shape() -> (usize, usize) {
        let (r, c) = (pick_dim(), pick_dim());
        if r * c > 5000 { (r, c % 5) } else { (r, c) }
    }
    fn gen((r, c): (usize, usize)) -> Arr {
        gen_arr::<T>(r, c)
    }
    fn build(a: &Arr) -> Self {
        mbuild(a)
    }
    fn read(&self, _: &Arr) -> Arr {
        mread(self)
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn menu() -> Vec<(&'static str, Cat)> {
        use Cat::*;
        let mut v = vec![
            ("add", Value), ("add_own", Value), ("add_wrap", Value), ("sub", Value), ("sub_own", Value),
            ("sub_wrap", Value), ("add_sub", Value), ("matmul", Value), ("matmul_slot", Value),
            ("matmul", Value), ("mul_elemwise", Value), ("mul_elemwise_wrap", Value),
            ("t", Value), ("t_wrap", Value), ("h", Value), ("h_wrap", Value), ("diag", Value),
            ("diag_wrap", Value), ("map", Value), ("zip", Value), ("array", Value), ("array_expr", Value),
            ("zeros", Value), ("ones", Value), ("same", Value), ("eye", Value), ("make", Value),
            ("index", Value), ("entry", Value), ("eval_ref", Value), ("eval_own", Value),
            ("eval_wrap", Value), ("clone", Value), ("eq", Value),
            ("+=own", Entry), ("+=ref", Entry), ("+=sum", Entry), ("+=map", Entry), ("+=user", Entry),
            ("+=prod", Entry), ("+=t", Entry),
            ("-=own", Entry), ("-=ref", Entry), ("-=sum", Entry), ("-=map", Entry), ("-=user", Entry),
            ("-=prod", Entry), ("-=t", Entry),
            ("set", Entry), ("index+=", Entry), ("index-=", Entry),
            ("get_oob", Reject), ("set_oob", Reject), ("entry_oob", Reject), ("add_bad", Reject),
            ("sub_bad", Reject), ("add_wrap_bad", Reject), ("sub_wrap_bad", Reject), ("+=bad", Reject),
            ("-=bad", Reject), ("+=bad_ref", Reject), ("-=bad_ref", Reject), ("zip_bad", Reject),
            ("mul_elemwise_bad", Reject), ("matmul_bad", Reject),
            ("late_sum", Late), ("late_same", Late), ("late_map", Late), ("late_t", Late),
            ("late_diag", Late), ("late_clone", Late),
        ];
        if T::DIV {
            v.extend([("div_elemwise", Value), ("div_elemwise_wrap", Value), ("div_elemwise_bad", Reject)]);
        }
        v
    }
    fn make(name: &'static str, m: &[Arr]) -> Option<Op<Self>> {
        let i = idx(m.len());
        let a = m[i].clone();
        let (nr, nc) = (a.r, a.c);
        if name.contains("div") && BOUND.load(std::sync::atomic::Ordering::Relaxed) != 0 {
            return None;
        }
        let b = if chance(1, 8) {
            Src::Slot(i)
        } else {
            other::<Self>(m, |j, x| j != i && x.same(&a), (nr, nc))
        };
        let bm = b.model(m).clone();
        let bad_shape = || {
            // Includes shapes with the same number of entries.
            let s = match idx(6) {
                0 => (nr + 1, nc),
                1 => (nr, nc + 1),
                2 => (nc, nr),
                3 => (nr * nc, 1),
                4 => (1, nr * nc),
                _ => (nr.saturating_sub(1), nc),
            };
            if s == (nr, nc) {
                (nr + 1, nc)
            } else {
                s
            }
        };
        let addm = || a.zip(&bm, xadd::<T>);
        let subm = || a.zip(&bm, xsub::<T>);
        let ew = |v: DMatrix<T>| Ret::Obj(v);
        match name {
            "add" => val2::<Self>(name, i, b, addm(), move |p, q| ew(lib(|| (p + q).eval()))),
            "sub" => val2::<Self>(name, i, b, subm(), move |p, q| ew(lib(|| (p - q).eval()))),
            "add_own" => val2::<Self>(name, i, b, addm(), move |p, q| {
                let q = q.dup();
                ew(lib(|| (p + q).eval()))
            }),
            "sub_own" => val2::<Self>(name, i, b, subm(), move |p, q| {
                let q = q.dup();
                ew(lib(|| (p - q).eval()))
            }),
            "add_wrap" => val2::<Self>(name, i, b, addm(), move |p, q| {
                let p = p.dup();
                ew(lib(|| (p.wrap() + q.wrap()).eval()))
            }),
            "sub_wrap" => val2::<Self>(name, i, b, subm(), move |p, q| {
                let p = p.dup();
                ew(lib(|| (p.wrap() - q.wrap()).eval()))
            }),
            "add_sub" => {
                let c = gen_arr::<T>(nr, nc);
                val2::<Self>(name, i, b, addm().zip(&c, xsub::<T>), move |p, q| {
                    let c = Self::build(&c);
                    ew(lib(|| (p + q - c).eval()))
                })
            }
            "matmul" | "matmul_slot" => {
                if nc == 0 {
                    return None; // C21, not claimed
                }
                let b = if name == "matmul" {
                    let k = if chance(1, 2) { nr } else { pick_dim() };
                    Src::Fresh(gen_arr::<T>(nc, k))
                } else {
                    other::<Self>(m, |_, x| x.r == nc, (nc, nr))
                };
                if nr * nc * b.model(m).c > 400_000 {
                    return None;
                }
                let e = smm::<T>(&a, b.model(m));
                val2::<Self>(name, i, b, e, move |p, q| ew(lib(|| (p * q).eval())))
            }
            "mul_elemwise" => val2::<Self>(name, i, b, a.zip(&bm, T::mmul), move |p, q| ew(lib(|| p.mul_elemwise(q).eval()))),
            "mul_elemwise_wrap" => val2::<Self>(name, i, b, a.zip(&bm, T::mmul), move |p, q| {
                let p = p.dup();
                ew(lib(|| p.wrap().mul_elemwise(q).eval()))
            }),
            "div_elemwise" | "div_elemwise_wrap" => {
                let w = name != "div_elemwise";
                val2::<Self>(name, i, b, a.zip(&bm, T::mdiv), move |p, q| {
                    let q = q.dup();
                    ew(lib(|| T::div_m(p, q, w)))
                })
            }
            "t" => val1::<Self>(name, i, a.t(), move |p| ew(lib(|| p.t().eval()))),
            "t_wrap" => val1::<Self>(name, i, a.t(), move |p| {
                let p = p.dup();
                ew(lib(|| p.wrap().t().eval()))
            }),
            "h" => val1::<Self>(name, i, a.t().map(T::mconj), move |p| ew(lib(|| p.h().eval()))),
            "h_wrap" => val1::<Self>(name, i, a.t().map(T::mconj), move |p| {
                let p = p.dup();
                ew(lib(|| p.wrap().h().eval()))
            }),
            "diag" | "diag_wrap" => {
                let w = name == "diag_wrap";
                let e = Arr::vec((0..nr.min(nc)).map(|k| a.at(k, k).clone()).collect());
                val1::<Self>(name, i, e, move |p| {
                    Ret::Arr(vread(&if w {
                        let p = p.dup();
                        lib(|| p.wrap().diag().eval())
                    } else {
                        lib(|| p.diag().eval())
                    }))
                })
            }
            "map" => {
                let s = rnd_elem::<T>();
                val1::<Self>(name, i, a.map(|x| T::mmul(x, &s)), move |p| {
                    let s = T::mk(&s);
                    ew(lib(|| p.wrap().map(|x| {
                        let _g = event(K::Source);
                        x.mul_refs(&s)
                    }).eval()))
                })
            }
            "zip" => val2::<Self>(name, i, b, subm(), move |p, q| ew(lib(|| p.wrap().zip(q).map(|(x, y)| x - y).eval()))),
            "array" => {
                let g = gen_arr::<T>(3, 2);
                val1::<Self>(name, i, g.clone(), move |_| {
                    let x: [[T; 2]; 3] = std::array::from_fn(|r| std::array::from_fn(|c| T::mk(g.at(r, c))));
                    ew(lib(|| x.eval()))
                })
            }
            "array_expr" => {
                let g = gen_arr::<T>(2, 3);
                let e = g.zip(&g, xadd::<T>).t();
                val1::<Self>(name, i, e, move |_| {
                    let x: [[T; 3]; 2] = std::array::from_fn(|r| std::array::from_fn(|c| T::mk(g.at(r, c))));
                    let y: [[T; 3]; 2] = std::array::from_fn(|r| std::array::from_fn(|c| T::mk(g.at(r, c))));
                    ew(lib(|| (x.wrap() + y).t().eval()))
                })
            }
            "zeros" | "ones" | "same" | "eye" => {
                let (r, c) = Self::shape();
                let c = if name == "eye" { r } else { c };
                let s = rnd_elem::<T>();
                let e = Arr::from_fn(r, c, |x, y| match name {
                    "zeros" => T::mzero(),
                    "ones" => T::mone(),
                    "same" => s.clone(),
                    _ => {
                        if x == y {
                            T::mone()
                        } else {
                            T::mzero()
                        }
                    }
                });
                val1::<Self>(name, i, e, move |_| {
                    let s = T::mk(&s);
                    ew(match name {
                        "zeros" => lib(|| DMatrix::<T>::zeros(r, c).eval()),
                        "ones" => lib(|| DMatrix::<T>::ones(r, c).eval()),
                        "same" => lib(|| DMatrix::<T>::same(r, c, s).eval()),
                        _ => lib(|| DMatrix::<T>::eye(r).eval()),
                    })
                })
            }
            "make" => {
                let g = gen_arr::<T>(nr, nc);
                val1::<Self>(name, i, g.clone(), move |_| {
                    ew(lib(|| make_matrix_expr(nr, nc, |r, c| {
                        let _g = event(K::Source);
                        T::mk(g.at(r, c))
                    }).eval()))
                })
            }
            "index" | "entry" => {
                if a.d.is_empty() {
                    return None;
                }
                let (r, c) = (idx(nr), idx(nc));
                let ix = name == "index";
                val1::<Self>(name, i, Arr::one(a.at(r, c).clone()), move |p| {
                    Ret::Arr(Arr::one(if ix { lib(|| &p[[r, c]]).rd() } else { lib(|| p.entry(r, c)).rd() }))
                })
            }
            "eval_ref" => val1::<Self>(name, i, a, move |p| ew(lib(|| p.eval()))),
            "eval_own" => val1::<Self>(name, i, a, move |p| {
                let p = p.dup();
                ew(lib(|| MatrixExpr::eval(p)))
            }),
            "eval_wrap" => val1::<Self>(name, i, a, move |p| ew(lib(|| p.wrap().eval()))),
            "clone" => val1::<Self>(name, i, a, |p| Ret::Obj(lib(|| p.clone()))),
            "eq" => {
                // Same entries under another shape must compare different.
                let b = if chance(1, 4) {
                    Src::Fresh(Arr::new(nc, nr, a.d.clone()))
                } else {
                    other::<Self>(m, |_, _| true, (nr, nc))
                };
                let e = Arr::flag(*b.model(m) == a);
                val2::<Self>(name, i, b, e, |p, q| Ret::Arr(Arr::flag(lib(|| p == q))))
            }
            "+=own" => mut2o::<Self>(name, Cat::Entry, i, b, addm(), |p, q| lib(|| *p += q)),
            "-=own" => mut2o::<Self>(name, Cat::Entry, i, b, subm(), |p, q| lib(|| *p -= q)),
            "+=ref" => mut2::<Self>(name, Cat::Entry, i, b, addm(), |p, q| lib(|| *p += q)),
            "-=ref" => mut2::<Self>(name, Cat::Entry, i, b, subm(), |p, q| lib(|| *p -= q)),
            "+=user" | "-=user" | "+=t" | "-=t" => {
                let g = gen_arr::<T>(nr, nc);
                let f = if name.starts_with('+') { xadd::<T> } else { xsub::<T> };
                mut1::<Self>(name, Cat::Entry, i, a.zip(&g, f), move |p| {
                    if name.ends_with("user") {
                        let v: Vec<T> = mks(&g);
                        let u = UserM(&v, nr, nc);
                        lib(|| if name == "+=user" { *p += u } else { *p -= u })
                    } else {
                        let q: DMatrix<T> = mbuild(&g.t());
                        lib(|| if name == "+=t" { *p += q.t() } else { *p -= q.t() })
                    }
                })
            }
            "+=sum" | "-=sum" => {
                let c = gen_arr::<T>(nr, nc);
                let e = bm.zip(&c, xadd::<T>);
                let f = if name == "+=sum" { xadd::<T> } else { xsub::<T> };
                mut2::<Self>(name, Cat::Entry, i, b, a.zip(&e, f), move |p, q| {
                    let c = Self::build(&c);
                    if name == "+=sum" {
                        lib(|| *p += q + &c)
                    } else {
                        lib(|| *p -= q + &c)
                    }
                })
            }
            "+=map" | "-=map" => {
                let s = rnd_elem::<T>();
                let e = bm.map(|x| T::mmul(x, &s));
                let f = if name == "+=map" { xadd::<T> } else { xsub::<T> };
                mut2::<Self>(name, Cat::Entry, i, b, a.zip(&e, f), move |p, q| {
                    let s = T::mk(&s);
                    let g = |x: T| {
                        let _g = event(K::Source);
                        x.mul_refs(&s)
                    };
                    if name == "+=map" {
                        lib(|| *p += q.wrap().map(g))
                    } else {
                        lib(|| *p -= q.wrap().map(g))
                    }
                })
            }
            "+=prod" | "-=prod" => {
                let k = range(1, 3);
                let (x, y) = (gen_arr::<T>(nr, k), gen_arr::<T>(k, nc));
                let e = smm::<T>(&x, &y);
                let f = if name == "+=prod" { xadd::<T> } else { xsub::<T> };
                mut1::<Self>(name, Cat::Entry, i, a.zip(&e, f), move |p| {
                    let (x, y): (DMatrix<T>, DMatrix<T>) = (mbuild(&x), mbuild(&y));
                    lib(|| if name == "+=prod" { *p += &x * &y } else { *p -= &x * &y })
                })
            }
            "set" | "index+=" | "index-=" => {
                if a.d.is_empty() {
                    return None;
                }
                let (r, c) = (idx(nr), idx(nc));
                let s = rnd_elem::<T>();
                let mut e = a.clone();
                let k = r * nc + c;
                e.d[k] = match name {
                    "set" => s.clone(),
                    "index+=" => xadd::<T>(&a.d[k], &s),
                    _ => xsub::<T>(&a.d[k], &s),
                };
                mut1::<Self>(name, Cat::Entry, i, e, move |p| {
                    let s = T::mk(&s);
                    match name {
                        "set" => lib(|| p[[r, c]] = s),
                        "index+=" => lib(|| p[[r, c]] += &s),
                        _ => lib(|| p[[r, c]] -= &s),
                    }
                })
            }
            "get_oob" | "set_oob" | "entry_oob" => {
                let (r, c) = match idx(7) {
                    0 => (nr, idx(nc + 1)),
                    1 => (idx(nr + 1), nc),
                    2 => (0, nc + idx(3)),
                    3 => (nr + idx(3), nc + idx(3)),
                    4 => (nr + 1000, 0),
                    5 => (beyond(nr), idx(nc + 1)),
                    _ => (idx(nr + 1), beyond(nc)),
                };
                let s = rnd_elem::<T>();
                if name == "set_oob" {
                    return rej(mut1::<Self>(name, Cat::Entry, i, none(), move |p| {
                        let s = T::mk(&s);
                        lib(|| p[[r, c]] = s)
                    }));
                }
                rej(val1::<Self>(name, i, none(), move |p| {
                    Ret::Arr(Arr::one(if name == "get_oob" {
                        lib(|| &p[[r, c]]).rd()
                    } else {
                        lib(|| p.entry(r, c)).rd()
                    }))
                }))
            }
            "+=bad" | "-=bad" => {
                let (r, c) = bad_shape();
                if chance(1, 2) {
                    let b = Src::Fresh(gen_arr::<T>(r, c));
                    return rej(mut2o::<Self>(name, Cat::Entry, i, b, none(), move |p, q| {
                        if name == "+=bad" {
                            lib(|| *p += q)
                        } else {
                            lib(|| *p -= q)
                        }
                    }));
                }
                rej(mut1::<Self>(name, Cat::Entry, i, none(), move |p| {
                    if name == "+=bad" {
                        lib(|| *p += gen_m::<T>(r, c))
                    } else {
                        lib(|| *p -= gen_m::<T>(r, c))
                    }
                }))
            }
            "+=bad_ref" | "-=bad_ref" => {
                let (r, c) = bad_shape();
                let b = Src::Fresh(gen_arr::<T>(r, c));
                rej(mut2::<Self>(name, Cat::Entry, i, b, none(), move |p, q| {
                    if name == "+=bad_ref" {
                        lib(|| *p += q)
                    } else {
                        lib(|| *p -= q)
                    }
                }))
            }
            "matmul_bad" => {
                let k = match idx(3) {
                    0 => nc + 1,
                    1 => nc.saturating_sub(1),
                    _ => nr,
                };
                let k = if k == nc { nc + 1 } else { k };
                let cols = pick_dim();
                let b = Src::Fresh(gen_arr::<T>(k, cols));
                rej(val2::<Self>(name, i, b, none(), move |p, q| {
                    lib(|| drop(p * q));
                    Ret::Arr(none())
                }))
            }
            "add_bad" | "sub_bad" | "add_wrap_bad" | "sub_wrap_bad" | "zip_bad" | "mul_elemwise_bad"
            | "div_elemwise_bad" => {
                let (r, c) = bad_shape();
                if chance(1, 2) {
                    // Owned operands full of elements, which the refusal must drop.
                    let b = Src::Fresh(gen_arr::<T>(r, c));
                    let own = chance(1, 2);
                    return rej(val2::<Self>(name, i, b, none(), move |p, q| {
                        let (x, y) = (p.dup(), q.dup());
                        lib(|| match name {
                            "add_bad" if own => drop(x.wrap() + y),
                            "sub_bad" if own => drop(x.wrap() - y),
                            "add_bad" => drop(p + y),
                            "sub_bad" => drop(p - y),
                            "add_wrap_bad" => drop(x.wrap() + y.wrap()),
                            "sub_wrap_bad" => drop(x.wrap() - y.wrap()),
                            "zip_bad" if own => drop(x.wrap().zip(y)),
                            "zip_bad" => drop(p.wrap().zip(y)),
                            "mul_elemwise_bad" if own => drop(x.wrap().mul_elemwise(y)),
                            "mul_elemwise_bad" => drop(p.mul_elemwise(y)),
                            _ => drop(T::div_m(p, y, own)),
                        });
                        Ret::Arr(none())
                    }));
                }
                rej(val1::<Self>(name, i, none(), move |p| {
                    let g = gen_m::<T>(r, c);
                    lib(|| match name {
                        "add_bad" => drop(p + g),
                        "sub_bad" => drop(p - g),
                        "add_wrap_bad" => drop(p.wrap() + g),
                        "sub_wrap_bad" => drop(p.wrap() - g),
                        "zip_bad" => drop(p.wrap().zip(g)),
                        "mul_elemwise_bad" => drop(p.mul_elemwise(g)),
                        _ => T::div_m_only(p, r, c),
                    });
                    Ret::Arr(none())
                }))
            }
            "late_sum" => op(name, Cat::Late, i, subm(), Run::Late(Box::new(move |s: &[Self]| {
                let (x, y) = (s[i].dup(), b.own(s));
                let e = lib(|| x.wrap() - y);
                Box::new(move || mread(&lib(|| e.eval())))
            }))),
            "late_same" => {
                if a.d.is_empty() {
                    return None;
                }
                let (r, c) = (idx(nr), idx(nc));
                let e = Arr::from_fn(2, 3, |_, _| a.at(r, c).clone());
                op(name, Cat::Late, i, e, Run::Late(Box::new(move |s: &[Self]| {
                    let x = T::mk(&s[i][[r, c]].rd());
                    let e = lib(|| DMatrix::<T>::same(2, 3, x));
                    Box::new(move || mread(&lib(|| e.eval())))
                })))
            }
            "late_map" => {
                let q = rnd_elem::<T>();
                op(name, Cat::Late, i, a.map(|x| xadd::<T>(x, &q)), Run::Late(Box::new(move |s: &[Self]| {
                    let (x, q) = (s[i].dup(), T::mk(&q));
                    let e = lib(|| x.wrap().map(move |mut v| {
                        v += &q;
                        v
                    }));
                    Box::new(move || mread(&lib(|| e.eval())))
                })))
            }
            "late_t" => op(name, Cat::Late, i, a.t().map(T::mconj), Run::Late(Box::new(move |s: &[Self]| {
                let x = s[i].dup();
                let e = lib(|| x.wrap().h());
                Box::new(move || mread(&lib(|| e.eval())))
            }))),
            "late_diag" => {
                let e = Arr::vec((0..nr.min(nc)).map(|k| a.at(k, k).clone()).collect());
                op(name, Cat::Late, i, e, Run::Late(Box::new(move |s: &[Self]| {
                    let x = s[i].dup();
                    let e = lib(|| x.wrap().diag());
                    Box::new(move || vread(&lib(|| e.eval())))
                })))
            }
            "late_clone" => op(name, Cat::Late, i, a, Run::Late(Box::new(move |s: &[Self]| {
                let x = lib(|| s[i].clone());
                Box::new(move || mread(&lib(|| MatrixExpr::eval(x))))
            }))),
            _ => unreachable!("{name}"),
        }
    }
}

pub fn note_obj<O: Obj>(k: usize, a: &Arr) {
    ctx::note(|| format!("slot {k}: {} = {}", O::fam(), a.show()));
}

/// The product over an empty inner dimension is a zero matrix (a known
/// finding: it cannot be evaluated).
pub fn empty_inner() {
    let (r, c) = (range(1, 4), range(1, 4));
    let what = format!("product of a {r}x0 and a 0x{c} dynamic matrix");
    ctx::note(|| what.clone());
    let a: DMatrix<E> = make_matrix_expr(r, 0, |_, _| unreachable!()).eval();
    let b: DMatrix<E> = make_matrix_expr(0, c, |_, _| unreachable!()).eval();
    match ctx::attempt(|| lib(|| (&a * &b).eval())) {
        ctx::Out::Ok(p) => {
            let zero = (0..r * c).all(|k| p.num_rows() == r && p.num_cols() == c && p[[k / c, k % c]].rd() == E::mzero());
            if !zero {
                ctx::violate("C17", "empty-inner-value", format!("{what} is not the zero matrix"));
            }
        }
        o => ctx::violate("C17", "empty-inner-product", format!("{what} ended in {}", crate::store::why(&o))),
    }
}
