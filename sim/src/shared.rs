//! C15: several simulated threads work on shared operands at once.

use crate::ctx::*;
use crate::elem::*;
use crate::fam::*;
use crate::sched;
use crate::store::*;
use magnesia::algebra::Polynomial;
use magnesia::linalg::*;

type Fam = (&'static str, u64, fn());
fn families() -> Vec<Fam> {
    vec![
        ("Polynomial<E>", 4, go::<Polynomial<E>>),
        ("Polynomial<Complex<E>>", 1, go::<Polynomial<CE>>),
        ("Polynomial<SMatrix<E,2,2>>", 2, go::<Polynomial<S2>>),
        ("Polynomial<Polynomial<E>>", 1, go::<Polynomial<PE>>),
        ("Complex<E>", 2, go::<CE>),
        ("SVector<E,3>", 2, go::<SVector<E, 3>>),
        ("SVector<Complex<E>,2>", 1, go::<SVector<CE, 2>>),
        ("SMatrix<E,2,2>", 1, go::<SMatrix<E, 2, 2>>),
        ("SMatrix<E,3,3>", 2, go::<SMatrix<E, 3, 3>>),
        ("SMatrix<SMatrix<E,2,2>,2,3>", 1, go::<SMatrix<S2, 2, 3>>),
        ("DVector<E>", 4, go::<DVector<E>>),
        ("DVector<Complex<E>>", 2, go::<DVector<CE>>),
        ("DMatrix<E>", 4, go::<DMatrix<E>>),
        ("DMatrix<Complex<E>>", 2, go::<DMatrix<CE>>),
        ("DMatrix<SMatrix<E,2,2>>", 2, go::<DMatrix<S2>>),
    ]
}
/// Whether the type may be shared and sent at all; decided by the compiler
/// without demanding it (an inherent method wins over the trait's).
struct Probe<T>(std::marker::PhantomData<T>);
impl<T: Send + Sync> Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}
trait Fallback {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> Fallback for Probe<T> {}

fn probes() {
    macro_rules! probe {
        ($($t:ty),*) => {$(
            #[allow(unused_imports)]
            if !Probe::<$t>(std::marker::PhantomData).shareable() {
                violate("C15", "not-shareable", format!("{} cannot be shared between threads", stringify!($t)));
            }
        )*};
    }
    probe!(
        Polynomial<E>, magnesia::algebra::Complex<E>, SVector<E, 3>, SMatrix<E, 2, 3>, DVector<E>, DMatrix<E>,
        DVector<f64>, DMatrix<f64>, Polynomial<i32>, magnesia::algebra::Complex<f64>,
        VectorExprWrapper<DVector<E>>, MatrixExprWrapper<DMatrix<E>>, VectorExprWrapper<&'static DVector<E>>,
        MatrixExprWrapper<&'static DMatrix<E>>
    );
}

pub fn run() {
    probes();
    if chance(1, 6) {
        return expressions();
    }
    let f = families();
    let w: Vec<u64> = f.iter().map(|x| x.1).collect();
    let k = weighted(&w);
    note(|| format!("family {}", f[k].0));
    hash_in(k as u64);
    (f[k].2)()
}

struct Job<O> {
    name: String,
    expect: Arr,
    f: RefFn<O>,
    plan: Option<(u32, u64)>,
}

fn solo<O: Obj>(f: &RefFn<O>, slots: &[O], expect: &Arr, plan: Option<(u32, u64)>) -> (Out<()>, Win, Option<String>) {
    arm(plan);
    let out = attempt(|| f(slots));
    let win = disarm();
    let mut wrong = None;
    let out = match out {
        Out::Ok(v) => {
            let e = want(&v, expect);
            match value_of(&v, expect) {
                Ok(a) if a == e => {}
                Ok(a) => wrong = Some(format!("{} instead of {}", a.show(), e.show())),
                Err(e) => wrong = Some(format!("an unreadable value ({e})")),
            }
            Out::Ok(())
        }
        Out::Injected(s) => Out::Injected(s),
        Out::Overflow => Out::Overflow,
        Out::Livelock => Out::Livelock,
        Out::Panic(m) => Out::Panic(m),
    };
    (out, win, wrong)
}

fn lib_dup<O: Obj>(o: &O) -> O {
    lib(|| o.dup())
}

/// Vouches for a value that the probe found not to be shareable (which is
/// reported); only one thread runs at a time, so sharing it is harmless.
struct Vouched<'a>(&'a dyn Fn(usize, usize) -> M);
unsafe impl Sync for Vouched<'_> {}
unsafe impl Send for Vouched<'_> {}

/// Several threads read the entries of one lazy expression.
fn read_shared(what: &str, expect: &Arr, entry: &dyn Fn(usize, usize) -> M) {
    let n = expect.d.len();
    note(|| format!("shared expression {what}, {}x{}", expect.r, expect.c));
    if n == 0 {
        return;
    }
    stat("shared expressions", 1);
    let jobs: Vec<Vec<(usize, Option<(u32, u64)>)>> = (0..range(2, 4))
        .map(|_| {
            let s = idx(n);
            (0..n.min(12))
                .map(|k| {
                    let k = if chance(1, 8) { idx(n) } else { (s + k) % n };
                    (k, if chance(1, 5) { Some((M_ELEM | M_SOURCE, below(4))) } else { None })
                })
                .collect()
        })
        .collect();
    let v = Vouched(entry);
    let read = |t: usize, k: usize, plan, v: &Vouched| {
        let (r, c) = (k / expect.c, k % expect.c);
        arm(plan);
        let out = attempt(|| (v.0)(r, c));
        let win = disarm();
        let w = || format!("entry ({r}, {c}) of a shared {what} on thread {t}");
        match out {
            Out::Ok(m) if m == expect.d[k] => {
                if win.fired.is_some() {
                    violate("C15", "swallowed", format!("{}: its failure was swallowed", w()));
                }
            }
            Out::Ok(m) => violate("C15", "wrong-entry", format!("{} is {m:?} instead of {:?}", w(), expect.d[k])),
            Out::Injected(s) if win.fired == Some(s) => {}
            o => violate("C15", "ended", format!("{} ended in {}", w(), why(&o))),
        }
    };
    let (v, read) = (&v, &read);
    let bodies: Vec<Box<dyn FnOnce() + '_>> = jobs
        .iter()
        .enumerate()
        .map(|(t, js)| {
            Box::new(move || {
                for &(k, plan) in js {
                    read(t, k, plan, v);
                }
            }) as Box<dyn FnOnce() + '_>
        })
        .collect();
    let (sw, h) = sched::run(bodies, 1 + [1, 2, 4][idx(3)]);
    stat("thread switches", sw);
    hash_in(h);
    for k in 0..n {
        read(0, k, None, v);
    }
}

fn expressions() {
    set_bound(0);
    let (r, c) = (range(1, 4), range(1, 4));
    let (am, bm) = (<DMatrix<CE> as Obj>::gen((r, c)), <DMatrix<CE> as Obj>::gen((r, c)));
    let gm = <DMatrix<CE> as Obj>::gen((c, 2));
    let (a, b, g) = (DMatrix::<CE>::build(&am), DMatrix::<CE>::build(&bm), DMatrix::<CE>::build(&gm));
    let (um, vm) = (<DVector<CE> as Obj>::gen((c, 1)), <DVector<CE> as Obj>::gen((c, 1)));
    let (u, v) = (DVector::<CE>::build(&um), DVector::<CE>::build(&vm));
    let add = |x: &M, y: &M| xadd::<CE>(x, y);
    let sub = |x: &M, y: &M| xsub::<CE>(x, y);
    let k = idx(14);
    hash_in(k as u64);
    fn tie<T>(_: &T) -> Probe<T> {
        Probe(std::marker::PhantomData)
    }
    macro_rules! shared {
        ($what:expr, $e:expr, $want:expr, |$x:ident, $r:pat_param, $c:pat_param| $read:expr) => {{
            let $x = lib(|| $e);
            #[allow(unused_imports)]
            if !tie(&$x).shareable() {
                violate("C15", "not-shareable", format!("a lazy {} cannot be shared between threads", $what));
            }
            read_shared($what, &$want, &|$r, $c| lib(|| $read).rd())
        }};
    }
    let vdiag = || Arr::from_fn(c, c, |i, j| if i == j { um.d[i].clone() } else { CE::mzero() });
    match k {
        0 => shared!("matrix sum", &a + &b, am.zip(&bm, add), |x, r, c| x.entry(r, c)),
        1 => shared!("owned matrix difference", a.clone().wrap() - b.clone(), am.zip(&bm, sub), |x, r, c| x.entry(r, c)),
        2 => shared!("matrix product", &a * &g, Arr::from_fn(r, 2, |i, j| {
            (0..c).fold(CE::mzero(), |s, k| add(&s, &<CE as Elem>::mmul(am.at(i, k), gm.at(k, j))))
        }), |x, r, c| x.entry(r, c)),
        3 => shared!("transpose", a.t(), am.t(), |x, r, c| x.entry(r, c)),
        4 => shared!("conjugate transpose", a.h(), am.t().map(CE::mconj), |x, r, c| x.entry(r, c)),
        5 => shared!("matrix element-wise product", a.mul_elemwise(&b), am.zip(&bm, <CE as Elem>::mmul), |x, r, c| x.entry(r, c)),
        6 => shared!("matrix diagonal", a.diag(), Arr::vec((0..r.min(c)).map(|k| am.at(k, k).clone()).collect()), |x, r, _| x.entry(r)),
        7 => shared!("vector sum", &u + &v, um.zip(&vm, add), |x, r, _| x.entry(r)),
        8 => shared!("owned vector difference", u.clone().wrap() - v.clone(), um.zip(&vm, sub), |x, r, _| x.entry(r)),
        9 => shared!("vector conjugate", u.conj(), um.map(CE::mconj), |x, r, _| x.entry(r)),
        10 => shared!("vector diagonal", u.diag(), vdiag(), |x, r, c| x.entry(r, c)),
        11 => shared!("vector map", (&u).wrap().map(|x| -x), um.map(xneg::<CE>), |x, r, _| x.entry(r)),
        12 => shared!("vector zip", (&u).wrap().zip(&v).map(|(x, y)| x * y), um.zip(&vm, <CE as Elem>::mmul), |x, r, _| x.entry(r)),
        _ => shared!("sum of sums", &a + &b - a.clone(), bm.clone(), |x, r, c| x.entry(r, c)),
    }
    for (what, o, m) in [("left", &a, &am), ("right", &b, &bm)] {
        if read(o, m) != Ok(m.clone()) {
            violate("C15", "operand-changed", format!("the {what} operand of a shared expression changed"));
        }
    }
    for (o, m) in [(&u, &um), (&v, &vm)] {
        if read(o, m) != Ok(m.clone()) {
            violate("C15", "operand-changed", "a vector operand of a shared expression changed".into());
        }
    }
}

fn go<O: Obj>() {
    set_bound(0);
    let menu = O::menu();
    let pick = |v: bool| -> Vec<&'static str> {
        menu.iter().filter(|m| if v { m.1 == Cat::Value } else { matches!(m.1, Cat::Mul | Cat::Entry) }).map(|m| m.0).collect()
    };
    let (values, updates) = (pick(true), pick(false));
    let (slots, model) = fill::<O>();
    let threads = range(2, 4);
    let mut jobs: Vec<Vec<Job<O>>> = Vec::new();
    // Often all threads do the same, to make them collide.
    let common = if chance(1, 2) { Some(values[idx(values.len())]) } else { None };
    for t in 0..threads {
        let mut v = Vec::new();
        for _ in 0..range(1, 3) {
            let name = match common {
                Some(n) if chance(3, 4) => n,
                _ if !updates.is_empty() && chance(1, 3) => updates[idx(updates.len())],
                _ => values[idx(values.len())],
            };
            let Some(op) = O::make(name, &model) else { continue };
            let f: RefFn<O> = match op.run {
                Run::Ref(f) => f,
                // An update of a private copy of the shared operands.
                Run::Mut(f) => {
                    let t = op.tgt;
                    Box::new(move |s: &[O]| {
                        let mut own: Vec<O> = s.iter().map(|o| lib_dup(o)).collect();
                        f(&mut own);
                        Ret::Obj(own.swap_remove(t))
                    })
                }
                Run::Late(_) => continue,
            };
            let (out, w, wrong) = solo(&f, &slots, &op.expect, None);
            if !matches!(out, Out::Ok(())) || wrong.is_some() {
                // Wrong even when alone: C17's business.
                stat("operations wrong even alone", 1);
                continue;
            }
            let plan = if chance(1, 3) { pick_fault(&w, &[0, 3, 1, 2]) } else { None };
            note(|| format!("thread {t}: {} fault {plan:?}", op.name));
            v.push(Job { name: op.name, expect: op.expect, f, plan });
        }
        jobs.push(v);
    }
    stat("shared operations", jobs.iter().map(|j| j.len() as u64).sum());
    let shared = &slots;
    let max = 1 + [1, 2, 4, 12][idx(4)];
    let bodies: Vec<Box<dyn FnOnce() + '_>> = jobs
        .iter()
        .enumerate()
        .map(|(t, js)| {
            Box::new(move || {
                for j in js {
                    let what = || format!("{} {} on thread {t}", O::fam(), j.name);
                    let (out, win, wrong) = solo(&j.f, shared, &j.expect, j.plan);
                    match out {
                        Out::Ok(()) => {
                            if win.fired.is_some() {
                                violate("C15", "swallowed", format!("{}: its failure was swallowed", what()));
                            } else if let Some(m) = wrong {
                                violate("C15", "wrong-value", format!("{} gave {m}, but the right value when alone", what()));
                            }
                        }
                        Out::Injected(s) => {
                            if win.fired != Some(s) {
                                violate("C15", "crosstalk", format!("{}: received a failure of another thread", what()));
                            }
                        }
                        o => violate("C15", "ended", format!("{} ended in {}", what(), why(&o))),
                    }
                }
            }) as Box<dyn FnOnce() + '_>
        })
        .collect();
    let (sw, h) = sched::run(bodies, max);
    stat("thread switches", sw);
    hash_in(h);
    for k in 0..slots.len() {
        match read(&slots[k], &model[k]) {
            Ok(a) if a == model[k] => {}
            Ok(a) => violate("C15", "operand-changed", format!(
                "{} shared operand {k} changed from {} to {}", O::fam(), model[k].show(), a.show()
            )),
            Err(e) => violate("C15", "operand-broken", format!("{} shared operand {k} unreadable ({e})", O::fam())),
        }
    }
    // Later: everything still works as alone, whatever failed before.
    for (t, js) in jobs.iter().enumerate() {
        for j in js {
            let (out, _, wrong) = solo(&j.f, &slots, &j.expect, None);
            if !matches!(out, Out::Ok(())) {
                violate("C15", "later", format!("{} {} of thread {t}, repeated later, ended in {}", O::fam(), j.name, why(&out)));
            } else if let Some(m) = wrong {
                violate("C15", "later", format!("{} {} of thread {t}, repeated later, gave {m}", O::fam(), j.name));
            }
        }
    }
}
