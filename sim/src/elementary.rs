//! C22: the elementary functions of complex numbers over a tracked, failing
//! real scalar.

use crate::ctx::*;
use crate::elem::E;
use crate::sched;
use crate::store::{pick_fault, why};
use magnesia::algebra::*;
use magnesia::functions::*;
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub, SubAssign};

/// A real number; `e` follows its life.
pub struct Y {
    v: f64,
    e: E,
}
impl Y {
    fn new(v: f64) -> Y {
        Y { v, e: E::new(0) }
    }
    fn get(&self) -> f64 {
        self.e.get();
        self.v
    }
}
macro_rules! bin {
    ($tr:ident, $f:ident, $k:expr, $op:tt) => {
        impl $tr<Y> for Y {
            type Output = Y;
            fn $f(self, r: Y) -> Y {
                (&self).$f(&r)
            }
        }
        impl<'a> $tr<&'a Y> for Y {
            type Output = Y;
            fn $f(self, r: &'a Y) -> Y {
                (&self).$f(r)
            }
        }
        impl<'a> $tr<Y> for &'a Y {
            type Output = Y;
            fn $f(self, r: Y) -> Y {
                self.$f(&r)
            }
        }
        impl<'a, 'b> $tr<&'b Y> for &'a Y {
            type Output = Y;
            fn $f(self, r: &'b Y) -> Y {
                let (a, b) = (self.get(), r.get());
                let _g = event($k);
                Y::new(a $op b)
            }
        }
    };
}
bin!(Add, add, K::Add, +);
bin!(Sub, sub, K::Sub, -);
bin!(Mul, mul, K::Mul, *);
bin!(Div, div, K::Div, /);
macro_rules! asg {
    ($tr:ident, $f:ident, $k:expr, $op:tt) => {
        impl $tr<Y> for Y {
            fn $f(&mut self, r: Y) {
                self.$f(&r)
            }
        }
        impl<'a> $tr<&'a Y> for Y {
            fn $f(&mut self, r: &'a Y) {
                let (a, b) = (self.get(), r.get());
                let _g = event($k);
                self.v = a $op b;
            }
        }
    };
}
asg!(AddAssign, add_assign, K::AddAsg, +);
asg!(SubAssign, sub_assign, K::SubAsg, -);
macro_rules! fun {
    ($($tr:ident $f:ident),*) => {$(
        impl $tr for Y {
            fn $f(self) -> Y {
                let a = self.get();
                let _g = event(K::Conj);
                Y::new(f64::$f(a))
            }
        }
    )*};
}
fun!(Exp exp, Sin sin, Cos cos, Sinh sinh, Cosh cosh, Tan tan, Ln ln, Asin asin);
impl Sqrt for Y {
    fn sqrt(&self) -> Y {
        let a = self.get();
        let _g = event(K::Conj);
        Y::new(f64::sqrt(a))
    }
}
impl Atan2 for Y {
    fn atan2(self, o: Y) -> Y {
        let (a, b) = (self.get(), o.get());
        let _g = event(K::Conj);
        Y::new(f64::atan2(a, b))
    }
}
impl Abs for Y {
    type Output = Y;
    fn abs(self) -> Y {
        (&self).abs()
    }
}
impl Abs for &Y {
    type Output = Y;
    fn abs(self) -> Y {
        let a = self.get();
        let _g = event(K::Conj);
        Y::new(f64::abs(a))
    }
}
impl Neg for Y {
    type Output = Y;
    fn neg(self) -> Y {
        let a = self.get();
        let _g = event(K::Neg);
        Y::new(-a)
    }
}
impl Clone for Y {
    fn clone(&self) -> Y {
        let a = self.get();
        let _g = event(K::Clone);
        Y::new(a)
    }
}
impl PartialEq for Y {
    fn eq(&self, o: &Y) -> bool {
        let (a, b) = (self.get(), o.get());
        let _g = event(K::Eq);
        a == b
    }
}
impl PartialOrd for Y {
    fn partial_cmp(&self, o: &Y) -> Option<Ordering> {
        let (a, b) = (self.get(), o.get());
        let _g = event(K::Eq);
        a.partial_cmp(&b)
    }
}
impl From<i8> for Y {
    fn from(x: i8) -> Y {
        let _g = event(K::Const);
        Y::new(x as f64)
    }
}
impl std::fmt::Debug for Y {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl Ring for Y {}
impl Field for Y {}

type C = (f64, f64);
const NAMES: [&str; 12] =
    ["exp", "sin", "cos", "tan", "sinh", "cosh", "ln", "sqrt", "abs", "abs_ref", "arg", "ln_of_exp"];

/// Textbook formulas, written differently from the library's.
fn model(name: &str, (x, y): C) -> C {
    match name {
        "exp" => (x.exp() * y.cos(), x.exp() * y.sin()),
        "sin" => (x.sin() * y.cosh(), x.cos() * y.sinh()),
        "cos" => (x.cos() * y.cosh(), -x.sin() * y.sinh()),
        "sinh" => (x.sinh() * y.cos(), x.cosh() * y.sin()),
        "cosh" => (x.cosh() * y.cos(), x.sinh() * y.sin()),
        "tan" => {
            let d = (2.0 * x).cos() + (2.0 * y).cosh();
            ((2.0 * x).sin() / d, (2.0 * y).sinh() / d)
        }
        "ln" => (x.hypot(y).ln(), y.atan2(x)),
        "sqrt" => {
            let (r, phi) = (x.hypot(y).sqrt(), y.atan2(x) / 2.0);
            // Exactly on the axes the polar form leaves rounding dust.
            if y == 0.0 && x < 0.0 {
                (0.0, r)
            } else {
                (r * phi.cos(), r * phi.sin())
            }
        }
        "abs" | "abs_ref" => (x.hypot(y), 0.0),
        "arg" => (y.atan2(x), 0.0),
        _ => unreachable!(),
    }
}
fn part() -> f64 {
    let m = match idx(5) {
        0 => return 0.0,
        1 => range(1, 5) as f64,
        2 => range(1, 32) as f64 / 8.0,
        3 => 0.02 + below(1 << 20) as f64 / (1 << 20) as f64 * 6.0,
        _ => 0.02 + below(1 << 20) as f64 / (1 << 20) as f64 * 0.3,
    };
    if chance(1, 2) {
        -m
    } else {
        m
    }
}
fn point(name: &str) -> C {
    loop {
        let z = (part(), part());
        let pole = (2.0 * z.0).cos() + (2.0 * z.1).cosh();
        let bad = match name {
            "tan" => pole < 0.05,
            "ln" | "arg" => z == (0.0, 0.0),
            "ln_of_exp" => z.1.abs() > 3.0,
            _ => false,
        };
        if !bad {
            return z;
        }
    }
}

trait Real: Sized {
    const TOL: f64;
    fn mk(v: f64) -> Self;
    fn rd(self) -> f64;
}
impl Real for Y {
    const TOL: f64 = 1e-9;
    fn mk(v: f64) -> Y {
        Y::new(v)
    }
    fn rd(self) -> f64 {
        self.get()
    }
}
impl Real for f64 {
    const TOL: f64 = 1e-9;
    fn mk(v: f64) -> f64 {
        v
    }
    fn rd(self) -> f64 {
        self
    }
}
impl Real for f32 {
    const TOL: f64 = 2e-3;
    fn mk(v: f64) -> f32 {
        v as f32
    }
    fn rd(self) -> f64 {
        self as f64
    }
}
fn pair<T: Real>(z: Complex<T>) -> C {
    (z.re.rd(), z.im.rd())
}
macro_rules! call {
    ($t:ty, $name:expr, $z:expr) => {{
        let z: &Complex<$t> = $z;
        let own = || Complex { re: <$t as Real>::mk(z.re.clone().rd()), im: <$t as Real>::mk(z.im.clone().rd()) };
        match $name {
            "exp" => { let z = own(); pair(lib(|| z.exp())) }
            "sin" => { let z = own(); pair(lib(|| z.sin())) }
            "cos" => { let z = own(); pair(lib(|| z.cos())) }
            "tan" => { let z = own(); pair(lib(|| z.tan())) }
            "sinh" => { let z = own(); pair(lib(|| z.sinh())) }
            "cosh" => { let z = own(); pair(lib(|| z.cosh())) }
            "ln" => { let z = own(); pair(lib(|| z.ln())) }
            "sqrt" => pair(lib(|| z.sqrt())),
            "abs" => { let z = own(); (lib(|| z.abs()).rd(), 0.0) }
            "abs_ref" => (lib(|| z.abs()).rd(), 0.0),
            "arg" => { let z = own(); (lib(|| z.arg()).rd(), 0.0) }
            _ => { let z = own(); pair(lib(|| z.exp().ln())) }
        }
    }};
}
fn close(got: C, want: C, tol: f64) -> bool {
    let size = want.0.hypot(want.1);
    let d = (got.0 - want.0).hypot(got.1 - want.1);
    d <= tol * (size + if size < 1.0 { size.max(0.01) } else { 0.0 })
}
fn expected(name: &str, z: C) -> C {
    if name == "ln_of_exp" {
        z
    } else {
        model(name, z)
    }
}
fn judge(what: &str, name: &str, z: C, got: C, tol: f64) {
    let e = expected(name, z);
    // The branch cut of ln and arg: rounding must not cross it.
    if !close(got, e, tol) {
        violate("C22", &format!("wrong-value {what}"), format!("{what} of {z:?} is {got:?} instead of {e:?}"));
    }
    if name == "sqrt" && got.0 < 0.0 {
        violate("C22", "negative-root", format!("{what} of {z:?} is {got:?}, with a negative real part"));
    }
}

fn live() -> i64 {
    ctx().live
}

/// One function with a failure inside, then again without.
fn faulted(name: &'static str, weights: &[u64; 4]) {
    let z = point(name);
    let what = format!("{name} over Y");
    let arg = Complex { re: Y::new(z.0), im: Y::new(z.1) };
    let before = live();
    stat("operations", 1);
    let mut plan = None;
    for round in 0..3 {
        note(|| format!("{what} of {z:?}, round {round}, fault {plan:?}"));
        arm(plan);
        let out = attempt(|| call!(Y, name, &arg));
        let win = disarm();
        match &out {
            Out::Ok(v) => {
                if win.fired.is_some() {
                    violate("C22", &format!("swallowed {name}"), format!("{what}: a failure inside it was swallowed"));
                }
                judge(&what, name, z, *v, Y::TOL);
            }
            Out::Injected(s) if win.fired == Some(*s) => {
                if win.after > 0 {
                    violate("C22", &format!("after {name}"), format!("{what}: {} more scalar operations after the failure", win.after));
                }
            }
            o => violate("C22", &format!("ended {name}"), format!("{what} of {z:?} ended in {}", why(o))),
        }
        drop(out);
        if arg.re.get() != z.0 || arg.im.get() != z.1 {
            violate("C22", "operand-changed", format!("{what} changed its operand"));
        }
        if live() != before {
            violate("C22", "unbalanced", format!("{what}: {} scalar values more alive than before", live() - before));
        }
        plan = if round == 0 { pick_fault(&win, weights) } else { None };
    }
}

fn machine(name: &'static str) {
    let z = point(name);
    stat("operations", 1);
    if chance(1, 2) {
        let a = Complex { re: z.0, im: z.1 };
        note(|| format!("{name} of {z:?} over f64"));
        match attempt(|| call!(f64, name, &a)) {
            Out::Ok(v) => judge(&format!("{name} over f64"), name, z, v, f64::TOL),
            o => violate("C22", "ended", format!("{name} of {z:?} over f64 ended in {}", why(&o))),
        }
    } else {
        let a = Complex { re: z.0 as f32, im: z.1 as f32 };
        let z = (a.re as f64, a.im as f64);
        note(|| format!("{name} of {z:?} over f32"));
        match attempt(|| call!(f32, name, &a)) {
            Out::Ok(v) => judge(&format!("{name} over f32"), name, z, v, f32::TOL),
            o => violate("C22", "ended", format!("{name} of {z:?} over f32 ended in {}", why(&o))),
        }
    }
}

/// Several threads apply functions to one shared operand.
fn threaded() {
    let names: Vec<&'static str> = (0..range(2, 3)).map(|_| NAMES[idx(11)]).collect();
    let z = loop {
        let z = point("tan");
        if z != (0.0, 0.0) {
            break z;
        }
    };
    let arg = Complex { re: Y::new(z.0), im: Y::new(z.1) };
    let plans: Vec<Option<(u32, u64)>> = names.iter().map(|_| if chance(1, 3) { Some((M_ELEM, below(6))) } else { None }).collect();
    note(|| format!("threads {names:?} on {z:?}, faults {plans:?}"));
    let a = &arg;
    let bodies: Vec<Box<dyn FnOnce() + '_>> = names
        .iter()
        .zip(&plans)
        .map(|(&name, &plan)| {
            Box::new(move || {
                arm(plan);
                let out = attempt(|| call!(Y, name, a));
                let win = disarm();
                match out {
                    Out::Ok(v) => {
                        if win.fired.is_some() {
                            violate("C22", &format!("swallowed {name}"), format!("{name}: a failure inside it was swallowed"));
                        }
                        judge(&format!("{name} over Y, among threads,"), name, z, v, Y::TOL)
                    }
                    Out::Injected(s) if win.fired == Some(s) => {}
                    o => violate("C22", "ended", format!("{name} of {z:?} on a thread ended in {}", why(&o))),
                }
            }) as Box<dyn FnOnce() + '_>
        })
        .collect();
    let (sw, h) = sched::run(bodies, 1 + [1, 3][idx(2)]);
    stat("thread switches", sw);
    hash_in(h);
}

pub fn run() {
    let n = range(1, 4);
    for _ in 0..n {
        if has_viol() {
            return;
        }
        let name = NAMES[idx(NAMES.len())];
        hash_in(name.bytes().fold(3, |h: u64, b| h.wrapping_mul(31).wrapping_add(b as u64)));
        match weighted(&[8, 2, 1]) {
            0 => faulted(name, &[1, 6, 0, 0]),
            1 => machine(name),
            _ => threaded(),
        }
    }
}
