//! C14: random expression trees over stateful, recording, failing sources.

use crate::ctx::*;
use crate::elem::*;
use crate::fam::Arr;
use crate::store::why;
use crate::tape::mix;
use magnesia::linalg::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

type Pos = (usize, usize);
#[derive(Clone, Default, PartialEq, Debug)]
struct Calls {
    /// Per source: how often each position was obtained.
    pos: Vec<BTreeMap<Pos, u64>>,
    /// Per mapping closure: number of calls.
    maps: Vec<u64>,
}
thread_local! {
    static REAL: RefCell<Calls> = RefCell::default();
    static SEED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// What source `id` gives at `p` when asked for the `n`-th time: stateful,
/// never zero.
fn produced<T: Elem>(id: usize, p: Pos, n: u64) -> M {
    let s = SEED.with(|s| s.get());
    let h = mix(mix(mix(mix(s, id as u64), p.0 as u64), p.1 as u64), n);
    (0..T::DIM as u64).map(|k| 1 + mix(h, k) % (P - 1)).collect()
}
fn source<T: Elem>(id: usize, p: Pos) -> T {
    // Recorded before the failure point: a failing read is a read, too.
    let n = {
        let _q = set_in_lib(0);
        REAL.with(|r| {
            let mut r = r.borrow_mut();
            let e = r.pos[id].entry(p).or_insert(0);
            *e += 1;
            *e
        })
    };
    let _g = event(K::Source);
    hash_in(mix(id as u64, mix(p.0 as u64, p.1 as u64)));
    T::mk(&produced::<T>(id, p, n))
}
fn mapped<T: Elem>(id: usize, v: &[&T], al: u64) -> T {
    {
        let _q = set_in_lib(0);
        REAL.with(|r| r.borrow_mut().maps[id] += 1);
    }
    let _g = event(K::Source);
    let m: Vec<M> = v.iter().map(|x| x.rd()).collect();
    T::mk(&mapped_model::<T>(&m, al))
}
/// Asymmetric in its arguments and not the identity.
fn mapped_model<T: Elem>(v: &[M], al: u64) -> M {
    let mut y = vec![al; T::DIM];
    for (k, x) in v.iter().enumerate() {
        for (a, b) in y.iter_mut().zip(x) {
            *a = madd(*a, mmul(*b, madd(al, k as u64 + 3)));
        }
    }
    y
}

// ---- erased expressions -------------------------------------------------

trait EV<T> {
    fn e(&self, i: usize) -> T;
    fn n(&self) -> usize;
    fn ev(self: Box<Self>) -> DVector<T>;
}
impl<T, X: VectorExpr<Entry = T>> EV<T> for X {
    fn e(&self, i: usize) -> T {
        self.entry(i)
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn ev(self: Box<Self>) -> DVector<T> {
        (*self).eval()
    }
}
struct DynV<'a, T>(Box<dyn EV<T> + 'a>);
impl<T> VectorExpr for DynV<'_, T> {
    type Entry = T;
    fn entry(&self, i: usize) -> T {
        self.0.e(i)
    }
    fn len(&self) -> usize {
        self.0.n()
    }
    fn eval(self) -> DVector<T> {
        self.0.ev()
    }
}
impl<T> VectorExpr for &DynV<'_, T> {
    type Entry = T;
    fn entry(&self, i: usize) -> T {
        self.0.e(i)
    }
    fn len(&self) -> usize {
        self.0.n()
    }
}
trait EM<T> {
    fn e(&self, r: usize, c: usize) -> T;
    fn nr(&self) -> usize;
    fn nc(&self) -> usize;
    fn ev(self: Box<Self>) -> DMatrix<T>;
}
impl<T, X: MatrixExpr<Entry = T>> EM<T> for X {
    fn e(&self, r: usize, c: usize) -> T {
        self.entry(r, c)
    }
    fn nr(&self) -> usize {
        self.num_rows()
    }
    fn nc(&self) -> usize {
        self.num_cols()
    }
    fn ev(self: Box<Self>) -> DMatrix<T> {
        (*self).eval()
    }
}
struct DynM<'a, T>(Box<dyn EM<T> + 'a>);
impl<T> MatrixExpr for DynM<'_, T> {
    type Entry = T;
    fn entry(&self, r: usize, c: usize) -> T {
        self.0.e(r, c)
    }
    fn num_rows(&self) -> usize {
        self.0.nr()
    }
    fn num_cols(&self) -> usize {
        self.0.nc()
    }
    fn eval(self) -> DMatrix<T> {
        self.0.ev()
    }
}
impl<T> MatrixExpr for &DynM<'_, T> {
    type Entry = T;
    fn entry(&self, r: usize, c: usize) -> T {
        self.0.e(r, c)
    }
    fn num_rows(&self) -> usize {
        self.0.nr()
    }
    fn num_cols(&self) -> usize {
        self.0.nc()
    }
}
/// User-supplied expressions.
struct UserSrcV<T>(usize, usize, std::marker::PhantomData<T>);
impl<T: Elem> VectorExpr for UserSrcV<T> {
    type Entry = T;
    fn entry(&self, i: usize) -> T {
        source(self.0, (i, 0))
    }
    fn len(&self) -> usize {
        self.1
    }
}
struct UserSrcM<T>(usize, usize, usize, std::marker::PhantomData<T>);
impl<T: Elem> MatrixExpr for UserSrcM<T> {
    type Entry = T;
    fn entry(&self, r: usize, c: usize) -> T {
        source(self.0, (r, c))
    }
    fn num_rows(&self) -> usize {
        self.1
    }
    fn num_cols(&self) -> usize {
        self.2
    }
}

// ---- specifications -----------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Src,
    User,
    Own,
    Ref,
    Map,
    Zip,
    Add,
    Sub,
    MulE,
    DivE,
    Conj, // vectors: conj; matrices: h
    Tr,
    Diag, // vectors: diagonal of a matrix; matrices: diagonal matrix
    Zeros,
    Ones,
    Same,
    Eye,
    RefAdd,
    RefSub,
    RefMulE,
    RefConj, // matrices: &m .h()
    RefT,
    RefDiag,
    Prod,
}
struct Nd {
    op: Op,
    vec: bool,
    r: usize,
    c: usize,
    id: usize,
    al: u64,
    arr: Vec<Arr>,
    pool: usize,
    kids: Vec<Nd>,
}
#[derive(Default)]
struct Counts {
    src: usize,
    maps: usize,
    pool: usize,
    nodes: usize,
}

fn arr<T: Elem>(r: usize, c: usize) -> Arr {
    let mut v = Vals::pick();
    Arr::from_fn(r, c, |_, _| v.elem::<T>())
}

fn spec<T: Elem>(vec: bool, r: usize, c: usize, depth: usize, k: &mut Counts) -> Nd {
    k.nodes += 1;
    let mut nd = Nd { op: Op::Src, vec, r, c, id: 0, al: 0, arr: vec![], pool: 0, kids: vec![] };
    let leaf = depth == 0 || k.nodes > 14;
    use Op::*;
    let mut menu: Vec<(Op, u64)> = vec![
        (Src, if leaf { 8 } else { 3 }), (User, if leaf { 4 } else { 2 }), (Own, 1), (Ref, 1), (Zeros, 1), (Ones, 1), (Same, 1),
    ];
    if !vec {
        if r == c {
            menu.push((Eye, 1));
        }
        menu.push((Prod, 1));
        menu.push((RefT, 1));
    }
    menu.push((RefConj, 1));
    menu.push((RefDiag, if vec || r == c { 1 } else { 0 }));
    if !leaf {
        menu.extend([(Map, 4), (Zip, 4), (Add, 4), (Sub, 4), (MulE, 3), (DivE, 3), (Conj, 4), (RefAdd, 2), (RefSub, 2), (RefMulE, 2)]);
        menu.push((Diag, if vec { 4 } else if r == c { 8 } else { 0 }));
        if !vec {
            menu.push((Tr, 5));
        }
    }
    let w: Vec<u64> = menu.iter().map(|m| m.1).collect();
    nd.op = menu[weighted(&w)].0;
    let mut pool = |a: Arr, nd: &mut Nd| {
        nd.pool = k.pool;
        k.pool += 1;
        nd.arr.push(a);
    };
    match nd.op {
        Src | User => {
            nd.id = k.src;
            k.src += 1;
        }
        Own => nd.arr.push(arr::<T>(r, c)),
        Ref | RefAdd | RefSub | RefMulE => pool(arr::<T>(r, c), &mut nd),
        Zeros | Ones | Eye => {}
        Same => nd.arr.push(Arr::one(rnd_elem::<T>())),
        RefConj if vec => pool(arr::<T>(r, c), &mut nd),
        RefConj | RefT => pool(arr::<T>(c, r), &mut nd),
        RefDiag if vec => {
            let (a, b) = wide(r);
            pool(arr::<T>(a, b), &mut nd)
        }
        RefDiag => pool(arr::<T>(r, 1), &mut nd),
        Prod => {
            let n = range(1, 3);
            pool(arr::<T>(r, n), &mut nd);
            nd.arr.push(arr::<T>(n, c));
            k.pool += 1;
        }
        Map | Zip => {
            nd.id = k.maps;
            k.maps += 1;
            nd.al = 1 + below(P - 2);
        }
        Add | Sub | MulE | DivE | Conj | Tr | Diag => {}
    }
    match nd.op {
        Map => nd.kids.push(spec::<T>(vec, r, c, depth - 1, k)),
        Zip | Add | Sub | MulE => {
            for _ in 0..2 {
                nd.kids.push(spec::<T>(vec, r, c, depth - 1, k));
            }
        }
        DivE => {
            nd.kids.push(spec::<T>(vec, r, c, depth - 1, k));
            let id = k.src;
            k.src += 1;
            nd.kids.push(Nd { op: if chance(1, 2) { User } else { Src }, vec, r, c, id, al: 0, arr: vec![], pool: 0, kids: vec![] });
        }
        RefAdd | RefSub | RefMulE => nd.kids.push(spec::<T>(vec, r, c, depth - 1, k)),
        Conj if vec => nd.kids.push(spec::<T>(vec, r, c, depth - 1, k)),
        Conj | Tr => nd.kids.push(spec::<T>(false, c, r, depth - 1, k)),
        Diag if vec => {
            let (a, b) = wide(r);
            nd.kids.push(spec::<T>(false, a, b, depth - 1, k));
        }
        Diag => nd.kids.push(spec::<T>(true, r, 1, depth - 1, k)),
        _ => {}
    }
    nd
}
/// A shape whose diagonal has `n` entries.
fn wide(n: usize) -> (usize, usize) {
    match idx(3) {
        0 => (n, n),
        1 => (n + range(1, 3), n),
        _ => (n, n + range(1, 3)),
    }
}

impl Nd {
    fn show(&self) -> String {
        let k: Vec<String> = self.kids.iter().map(|k| k.show()).collect();
        let tag = match self.op {
            Op::Src | Op::User => format!("#{}", self.id),
            _ => String::new(),
        };
        let sh = if self.vec { format!("{}", self.r) } else { format!("{}x{}", self.r, self.c) };
        format!("{:?}{tag}[{sh}]{}", self.op, if k.is_empty() { String::new() } else { format!("({})", k.join(", ")) })
    }
    /// Model of one entry; counts what it needs.
    fn at<T: FElem>(&self, i: usize, j: usize, q: &mut Calls) -> M {
        use Op::*;
        let mut kid = |k: usize, i: usize, j: usize| self.kids[k].at::<T>(i, j, q);
        match self.op {
            Src | User => {
                let e = q.pos[self.id].entry((i, j)).or_insert(0);
                *e += 1;
                produced::<T>(self.id, (i, j), *e)
            }
            Own | Ref => self.arr[0].at(i, j).clone(),
            Map => {
                let x = kid(0, i, j);
                q.maps[self.id] += 1;
                mapped_model::<T>(&[x], self.al)
            }
            Zip => {
                let x = kid(0, i, j);
                let y = kid(1, i, j);
                q.maps[self.id] += 1;
                mapped_model::<T>(&[x, y], self.al)
            }
            Add => xadd::<T>(&kid(0, i, j), &kid(1, i, j)),
            Sub => xsub::<T>(&kid(0, i, j), &kid(1, i, j)),
            MulE => T::mmul(&kid(0, i, j), &kid(1, i, j)),
            DivE => T::mdiv(&kid(0, i, j), &kid(1, i, j)),
            RefAdd => xadd::<T>(self.arr[0].at(i, j), &kid(0, i, j)),
            RefSub => xsub::<T>(self.arr[0].at(i, j), &kid(0, i, j)),
            RefMulE => T::mmul(self.arr[0].at(i, j), &kid(0, i, j)),
            Conj if self.vec => T::mconj(&kid(0, i, j)),
            Conj => T::mconj(&kid(0, j, i)),
            Tr => kid(0, j, i),
            Diag if self.vec => kid(0, i, i),
            Diag => {
                if i == j {
                    kid(0, i, 0)
                } else {
                    T::mzero()
                }
            }
            Zeros => T::mzero(),
            Ones => T::mone(),
            Same => self.arr[0].d[0].clone(),
            Eye => {
                if i == j {
                    T::mone()
                } else {
                    T::mzero()
                }
            }
            RefConj if self.vec => T::mconj(self.arr[0].at(i, j)),
            RefConj => T::mconj(self.arr[0].at(j, i)),
            RefT => self.arr[0].at(j, i).clone(),
            RefDiag if self.vec => self.arr[0].at(i, i).clone(),
            RefDiag => {
                if i == j {
                    self.arr[0].at(i, 0).clone()
                } else {
                    T::mzero()
                }
            }
            Prod => {
                let mut s = T::mzero();
                for k in 0..self.arr[0].c {
                    s = xadd::<T>(&s, &T::mmul(self.arr[0].at(i, k), self.arr[1].at(k, j)));
                }
                s
            }
        }
    }
    fn all<T: FElem>(&self, q: &mut Calls) -> Arr {
        Arr::from_fn(self.r, self.c, |i, j| self.at::<T>(i, j, q))
    }
    fn pools<T: FElem>(&self, p: &mut BTreeMap<usize, (Option<DVector<T>>, Option<DMatrix<T>>)>) {
        use Op::*;
        match self.op {
            Ref | RefAdd | RefSub | RefMulE | RefConj | RefT | RefDiag | Prod => {
                let vec = match self.op {
                    RefDiag => !self.vec,
                    RefT | Prod => false,
                    _ => self.vec,
                };
                for (k, a) in self.arr.iter().enumerate() {
                    p.insert(self.pool + k, if vec { (Some(dv(a)), None) } else { (None, Some(dm(a))) });
                }
            }
            _ => {}
        }
        for k in &self.kids {
            k.pools(p);
        }
    }
}
fn dv<T: Elem>(a: &Arr) -> DVector<T> {
    let v: Vec<T> = a.d.iter().map(|m| T::mk(m)).collect();
    (&v[..]).eval()
}
fn dm<T: Elem>(a: &Arr) -> DMatrix<T> {
    make_matrix_expr(a.r, a.c, |i, j| T::mk(a.at(i, j))).eval()
}

type Pool<T> = BTreeMap<usize, (Option<DVector<T>>, Option<DMatrix<T>>)>;

fn build_v<'a, T: FElem>(n: &Nd, p: &'a Pool<T>) -> DynV<'a, T> {
    use Op::*;
    let r = n.r;
    let (id, al) = (n.id, n.al);
    macro_rules! v {
        ($e:expr) => {{
            let x = lib(|| $e);
            DynV(Box::new(x))
        }};
    }
    let refv = || p[&n.pool].0.as_ref().unwrap();
    match n.op {
        Src => v!(make_vector_expr(r, move |i| source::<T>(id, (i, 0)))),
        User => DynV(Box::new(UserSrcV(id, r, std::marker::PhantomData))),
        Own => DynV(Box::new(dv::<T>(&n.arr[0]))),
        Ref => DynV(Box::new(refv())),
        Zeros => v!(DVector::<T>::zeros(r)),
        Ones => v!(DVector::<T>::ones(r)),
        Same => {
            let x = T::mk(&n.arr[0].d[0]);
            v!(DVector::<T>::same(r, x))
        }
        RefConj => v!(refv().conj()),
        RefDiag => v!(p[&n.pool].1.as_ref().unwrap().diag()),
        Diag => {
            let m = build_m::<T>(&n.kids[0], p);
            v!(m.wrap().diag())
        }
        _ => {
            let a = build_v::<T>(&n.kids[0], p);
            match n.op {
                Map => v!(a.wrap().map(move |x| mapped(id, &[&x], al))),
                Conj => v!(a.wrap().conj()),
                RefAdd => v!(refv() + a),
                RefSub => v!(refv() - a),
                RefMulE => v!(refv().mul_elemwise(a)),
                _ => {
                    let b = build_v::<T>(&n.kids[1], p);
                    match n.op {
                        Zip => v!(a.wrap().zip(b).map(move |(x, y)| mapped(id, &[&x, &y], al))),
                        Add => v!(a.wrap() + b),
                        Sub => v!(a.wrap() - b),
                        MulE => v!(a.wrap().mul_elemwise(b)),
                        DivE => v!(a.wrap().div_elemwise(b)),
                        o => unreachable!("{o:?}"),
                    }
                }
            }
        }
    }
}
fn build_m<'a, T: FElem>(n: &Nd, p: &'a Pool<T>) -> DynM<'a, T> {
    use Op::*;
    let (r, c) = (n.r, n.c);
    let (id, al) = (n.id, n.al);
    macro_rules! v {
        ($e:expr) => {{
            let x = lib(|| $e);
            DynM(Box::new(x))
        }};
    }
    let refm = |k: usize| p[&(n.pool + k)].1.as_ref().unwrap();
    match n.op {
        Src => v!(make_matrix_expr(r, c, move |i, j| source::<T>(id, (i, j)))),
        User => DynM(Box::new(UserSrcM(id, r, c, std::marker::PhantomData))),
        Own => DynM(Box::new(dm::<T>(&n.arr[0]))),
        Ref => DynM(Box::new(refm(0))),
        Zeros => v!(DMatrix::<T>::zeros(r, c)),
        Ones => v!(DMatrix::<T>::ones(r, c)),
        Same => {
            let x = T::mk(&n.arr[0].d[0]);
            v!(DMatrix::<T>::same(r, c, x))
        }
        Eye => v!(DMatrix::<T>::eye(r)),
        RefConj => v!(refm(0).h()),
        RefT => v!(refm(0).t()),
        RefDiag => v!(p[&n.pool].0.as_ref().unwrap().diag()),
        Prod => v!(refm(0) * refm(1)),
        Diag => {
            let d = build_v::<T>(&n.kids[0], p);
            v!(d.wrap().diag())
        }
        _ => {
            let a = build_m::<T>(&n.kids[0], p);
            match n.op {
                Map => v!(a.wrap().map(move |x| mapped(id, &[&x], al))),
                Conj => v!(a.wrap().h()),
                Tr => v!(a.wrap().t()),
                RefAdd => v!(refm(0) + a),
                RefSub => v!(refm(0) - a),
                RefMulE => v!(refm(0).mul_elemwise(a)),
                _ => {
                    let b = build_m::<T>(&n.kids[1], p);
                    match n.op {
                        Zip => v!(a.wrap().zip(b).map(move |(x, y)| mapped(id, &[&x, &y], al))),
                        Add => v!(a.wrap() + b),
                        Sub => v!(a.wrap() - b),
                        MulE => v!(a.wrap().mul_elemwise(b)),
                        DivE => v!(a.wrap().div_elemwise(b)),
                        o => unreachable!("{o:?}"),
                    }
                }
            }
        }
    }
}

enum Tree<'a, T> {
    V(DynV<'a, T>),
    M(DynM<'a, T>),
}
fn vec_arr<T: Elem>(v: &DVector<T>) -> Arr {
    Arr::vec((0..v.len()).map(|i| v[i].rd()).collect())
}
fn mat_arr<T: Elem>(m: &DMatrix<T>) -> Arr {
    Arr::from_fn(m.num_rows(), m.num_cols(), |i, j| m[[i, j]].rd())
}

pub fn run() {
    crate::store::set_bound(0);
    if chance(1, 3) {
        one::<CE>();
    } else {
        one::<E>();
    }
}

fn one<T: FElem>() {
    let vec = chance(1, 2);
    // Products evaluate their operands again and again: big sizes only in
    // shallow trees.
    let depth = range(0, 4);
    let w = if vec && depth < 3 { [2000, 400, 100, 10, 2] } else if depth < 2 { [2000, 400, 100, 4, 0] } else { [20, 4, 1, 0, 0] };
    let dim = || match weighted(&w) {
        0 => range(0, 4),
        1 => range(5, 9),
        2 => [16, 17, 33][idx(3)],
        3 => [40, 64, 65, 66, 100, 128, 129][idx(7)],
        _ => [255, 256, 257, 300, 511, 512][idx(6)],
    };
    let r = dim();
    let c = if vec { 1 } else if chance(1, 2) { r } else { dim() };
    let mut k = Counts::default();
    let nd = spec::<T>(vec, r, c, depth, &mut k);
    note(|| format!("expression over {}: {}", T::NAME, nd.show()));
    hash_in(nd.show().bytes().fold(7, |h: u64, b| h.wrapping_mul(31).wrapping_add(b as u64)));
    stat("expression nodes", k.nodes as u64);
    SEED.with(|s| s.set(word()));
    let fresh = Calls { pos: vec![BTreeMap::new(); k.src], maps: vec![0; k.maps] };
    REAL.with(|x| *x.borrow_mut() = fresh.clone());
    let mut model = fresh;
    let mut pool = Pool::new();
    nd.pools::<T>(&mut pool);
    // Building.
    arm(None);
    let tree = attempt(|| if vec { Tree::V(build_v::<T>(&nd, &pool)) } else { Tree::M(build_m::<T>(&nd, &pool)) });
    let w = disarm();
    let tree = match tree {
        Out::Ok(t) => t,
        e => return violate("C14", "build-failed", format!("building {} ended in {}", nd.show(), why(&e))),
    };
    if w.count(M_SOURCE) > 0 {
        return violate("C14", "eager", format!(
            "building {} already obtained {} entries from its sources", nd.show(), w.count(M_SOURCE)
        ));
    }
    let shape = match &tree {
        Tree::V(v) => (v.len(), 1),
        Tree::M(m) => (m.num_rows(), m.num_cols()),
    };
    if shape != (r, c) {
        return violate("C14", "shape", format!("{} has shape {shape:?}", nd.show()));
    }
    let steps = range(1, 4);
    for s in 0..steps {
        if has_viol() {
            return;
        }
        // The operation: an evaluation, an update by the expression, or one
        // entry. The last one may consume the expression.
        let kind = weighted(&[3, 1, 1, if r * c > 0 { 4 } else { 0 }]);
        let at = if kind == 3 { (idx(r), idx(c)) } else { (0, 0) };
        let base = if kind == 1 || kind == 2 { Some(arr::<T>(r, c)) } else { None };
        let before = model.clone();
        let val = if kind == 3 { Arr::one(nd.at::<T>(at.0, at.1, &mut model)) } else { nd.all::<T>(&mut model) };
        let want = match kind {
            1 => base.as_ref().unwrap().zip(&val, xadd::<T>),
            2 => base.as_ref().unwrap().zip(&val, xsub::<T>),
            _ => val,
        };
        let n = total(&model) - total(&before);
        let plan = match weighted(&[3, if n > 0 { 4 } else { 0 }, 1, 1]) {
            0 => None,
            1 => Some((M_SOURCE, below(n))),
            2 => Some((M_ELEM, below(3 * (r * c) as u64 + 2))),
            _ => Some((M_ALLOC, below(2))),
        };
        let name = ["evaluation", "+=", "-=", "read of one entry"][kind];
        note(|| format!("step {s}: {name} {at:?}, fault {plan:?}"));
        stat("expression operations", 1);
        let last = s + 1 == steps && chance(1, 2);
        if last {
            return match tree {
                Tree::V(v) => {
                    let o = run_v(v, kind, at.0, base.as_ref(), plan);
                    judge::<T>(&nd, name, o, &want, &before, &mut model, at)
                }
                Tree::M(m) => {
                    let o = run_m(m, kind, at, base.as_ref(), plan);
                    judge::<T>(&nd, name, o, &want, &before, &mut model, at)
                }
            };
        }
        let o = match &tree {
            Tree::V(v) => run_v(v, kind, at.0, base.as_ref(), plan),
            Tree::M(m) => run_m(m, kind, at, base.as_ref(), plan),
        };
        judge::<T>(&nd, name, o, &want, &before, &mut model, at);
    }
}
fn total(c: &Calls) -> u64 {
    c.maps.iter().sum::<u64>() + c.pos.iter().map(|p| p.values().sum::<u64>()).sum::<u64>()
}

fn run_v<T: FElem, X: VectorExpr<Entry = T>>(
    x: X,
    kind: usize,
    i: usize,
    base: Option<&Arr>,
    plan: Option<(u32, u64)>,
) -> (Out<Arr>, Win) {
    let mut b = base.map(dv::<T>);
    arm(plan);
    let o = attempt(|| match kind {
        0 => {
            let v = lib(|| x.eval());
            vec_arr(&v)
        }
        1 => {
            let b = b.as_mut().unwrap();
            lib(|| *b += x);
            vec_arr(b)
        }
        2 => {
            let b = b.as_mut().unwrap();
            lib(|| *b -= x);
            vec_arr(b)
        }
        _ => Arr::one(lib(|| x.entry(i)).rd()),
    });
    (o, disarm())
}
fn run_m<T: FElem, X: MatrixExpr<Entry = T>>(
    x: X,
    kind: usize,
    at: Pos,
    base: Option<&Arr>,
    plan: Option<(u32, u64)>,
) -> (Out<Arr>, Win) {
    let mut b = base.map(dm::<T>);
    arm(plan);
    let o = attempt(|| match kind {
        0 => {
            let v = lib(|| x.eval());
            mat_arr(&v)
        }
        1 => {
            let b = b.as_mut().unwrap();
            lib(|| *b += x);
            mat_arr(b)
        }
        2 => {
            let b = b.as_mut().unwrap();
            lib(|| *b -= x);
            mat_arr(b)
        }
        _ => Arr::one(lib(|| x.entry(at.0, at.1)).rd()),
    });
    (o, disarm())
}

/// Judges one operation; afterwards the model has the sources' real state.
fn judge<T: FElem>(nd: &Nd, name: &str, o: (Out<Arr>, Win), want: &Arr, before: &Calls, model: &mut Calls, at: Pos) {
    let (out, win) = o;
    let real = REAL.with(|r| r.borrow().clone());
    let failed = !matches!(out, Out::Ok(_));
    let what = || format!("{name} {at:?} of {}", nd.show());
    for id in 0..model.pos.len() {
        let all: std::collections::BTreeSet<Pos> = model.pos[id].keys().chain(real.pos[id].keys()).copied().collect();
        for p in all {
            let g = |c: &Calls| c.pos[id].get(&p).copied().unwrap_or(0);
            let (b, m, r) = (g(before), g(model), g(&real));
            let (want_n, got) = (m - b, r - b);
            if got > want_n || (!failed && got != want_n) {
                violate("C14", if got > want_n { "too-often" } else { "not-obtained" }, format!(
                    "{}: entry {p:?} of source {id} was obtained {got} times instead of {want_n}", what()
                ));
                *model = real;
                return;
            }
        }
    }
    for id in 0..model.maps.len() {
        let (want_n, got) = (model.maps[id] - before.maps[id], real.maps[id] - before.maps[id]);
        if got > want_n || (!failed && got != want_n) {
            violate("C14", "map-calls", format!("{}: mapping {id} was called {got} times instead of {want_n}", what()));
            *model = real;
            return;
        }
    }
    match &out {
        Out::Ok(a) => {
            if win.fired.is_some() {
                violate("C14", "swallowed", format!("{}: a failure inside it was swallowed", what()));
            } else if a != want {
                violate("C14", "wrong-value", format!("{} gave {} instead of {}", what(), a.show(), want.show()));
            }
        }
        Out::Injected(_) => stat("failed expression operations", 1),
        e => violate("C14", "ended", format!("{} ended in {}", what(), why(e))),
    }
    *model = real;
}
