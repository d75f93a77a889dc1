//! Seeded operation histories over a store of library objects, with a fault
//! injected into (almost) every operation at a chosen callback or allocation.

use crate::ctx::*;
use crate::elem::*;
use crate::fam::*;
use magnesia::algebra::Polynomial;
use magnesia::linalg::*;
use std::sync::atomic::Ordering::Relaxed;

pub struct Focus {
    /// Weights of Mul, Entry, Value, Reject, Late operations.
    pub cats: [u64; 5],
    /// Weights of: no fault, element, source, allocation.
    pub faults: [u64; 4],
    pub steps: (usize, usize),
}

pub type Fam = (&'static str, u64, fn(&Focus), fn() -> Vec<(&'static str, Cat)>);

/// All families with a weight each.
pub fn families() -> Vec<Fam> {
    vec![
        ("Polynomial<E>", 12, history::<Polynomial<E>>, <Polynomial<E> as Obj>::menu),
        ("Polynomial<Complex<E>>", 4, history::<Polynomial<CE>>, <Polynomial<CE> as Obj>::menu),
        ("Polynomial<SMatrix<E,2,2>>", 6, history::<Polynomial<S2>>, <Polynomial<S2> as Obj>::menu),
        ("Polynomial<Polynomial<E>>", 4, history::<Polynomial<PE>>, <Polynomial<PE> as Obj>::menu),
        ("Complex<E>", 10, history::<CE>, <CE as Obj>::menu),
        ("SVector<E,1>", 1, history::<SVector<E, 1>>, <SVector<E, 1> as Obj>::menu),
        ("SVector<E,3>", 3, history::<SVector<E, 3>>, <SVector<E, 3> as Obj>::menu),
        ("SVector<E,9>", 2, history::<SVector<E, 9>>, <SVector<E, 9> as Obj>::menu),
        ("SVector<E,33>", 1, history::<SVector<E, 33>>, <SVector<E, 33> as Obj>::menu),
        ("SVector<E,65>", 1, history::<SVector<E, 65>>, <SVector<E, 65> as Obj>::menu),
        ("SVector<E,0>", 1, history::<SVector<E, 0>>, <SVector<E, 0> as Obj>::menu),
        ("SVector<E,4>", 1, history::<SVector<E, 4>>, <SVector<E, 4> as Obj>::menu),
        ("SVector<E,6>", 1, history::<SVector<E, 6>>, <SVector<E, 6> as Obj>::menu),
        ("SVector<E,7>", 1, history::<SVector<E, 7>>, <SVector<E, 7> as Obj>::menu),
        ("SVector<E,16>", 1, history::<SVector<E, 16>>, <SVector<E, 16> as Obj>::menu),
        ("SVector<Complex<E>,2>", 2, history::<SVector<CE, 2>>, <SVector<CE, 2> as Obj>::menu),
        ("SVector<Polynomial<E>,4>", 2, history::<SVector<PE, 4>>, <SVector<PE, 4> as Obj>::menu),
        ("SVector<SMatrix<E,2,2>,3>", 2, history::<SVector<S2, 3>>, <SVector<S2, 3> as Obj>::menu),
        ("SMatrix<E,1,1>", 1, history::<SMatrix<E, 1, 1>>, <SMatrix<E, 1, 1> as Obj>::menu),
        ("SMatrix<E,2,2>", 3, history::<SMatrix<E, 2, 2>>, <SMatrix<E, 2, 2> as Obj>::menu),
        ("SMatrix<E,3,3>", 3, history::<SMatrix<E, 3, 3>>, <SMatrix<E, 3, 3> as Obj>::menu),
        ("SMatrix<E,2,3>", 2, history::<SMatrix<E, 2, 3>>, <SMatrix<E, 2, 3> as Obj>::menu),
        ("SMatrix<E,3,2>", 2, history::<SMatrix<E, 3, 2>>, <SMatrix<E, 3, 2> as Obj>::menu),
        ("SMatrix<E,1,4>", 1, history::<SMatrix<E, 1, 4>>, <SMatrix<E, 1, 4> as Obj>::menu),
        ("SMatrix<E,5,1>", 1, history::<SMatrix<E, 5, 1>>, <SMatrix<E, 5, 1> as Obj>::menu),
        ("SMatrix<E,5,4>", 1, history::<SMatrix<E, 5, 4>>, <SMatrix<E, 5, 4> as Obj>::menu),
        ("SMatrix<E,9,9>", 1, history::<SMatrix<E, 9, 9>>, <SMatrix<E, 9, 9> as Obj>::menu),
        ("SMatrix<E,0,3>", 1, history::<SMatrix<E, 0, 3>>, <SMatrix<E, 0, 3> as Obj>::menu),
        ("SMatrix<E,3,0>", 1, history::<SMatrix<E, 3, 0>>, <SMatrix<E, 3, 0> as Obj>::menu),
        ("SMatrix<E,2,5>", 1, history::<SMatrix<E, 2, 5>>, <SMatrix<E, 2, 5> as Obj>::menu),
        ("SMatrix<E,1,6>", 1, history::<SMatrix<E, 1, 6>>, <SMatrix<E, 1, 6> as Obj>::menu),
        ("SMatrix<E,2,7>", 1, history::<SMatrix<E, 2, 7>>, <SMatrix<E, 2, 7> as Obj>::menu),
        ("SMatrix<E,3,8>", 1, history::<SMatrix<E, 3, 8>>, <SMatrix<E, 3, 8> as Obj>::menu),
        ("SMatrix<E,1,11>", 1, history::<SMatrix<E, 1, 11>>, <SMatrix<E, 1, 11> as Obj>::menu),
        ("SMatrix<E,1,16>", 1, history::<SMatrix<E, 1, 16>>, <SMatrix<E, 1, 16> as Obj>::menu),
        ("SMatrix<E,1,33>", 1, history::<SMatrix<E, 1, 33>>, <SMatrix<E, 1, 33> as Obj>::menu),
        ("SMatrix<E,17,3>", 1, history::<SMatrix<E, 17, 3>>, <SMatrix<E, 17, 3> as Obj>::menu),
        ("SMatrix<E,6,1>", 1, history::<SMatrix<E, 6, 1>>, <SMatrix<E, 6, 1> as Obj>::menu),
        ("SMatrix<E,4,4>", 1, history::<SMatrix<E, 4, 4>>, <SMatrix<E, 4, 4> as Obj>::menu),
        ("SMatrix<E,8,8>", 1, history::<SMatrix<E, 8, 8>>, <SMatrix<E, 8, 8> as Obj>::menu),
        ("SMatrix<Complex<E>,2,2>", 3, history::<SMatrix<CE, 2, 2>>, <SMatrix<CE, 2, 2> as Obj>::menu),
        ("SMatrix<SMatrix<E,2,2>,2,3>", 2, history::<SMatrix<S2, 2, 3>>, <SMatrix<S2, 2, 3> as Obj>::menu),
        ("SMatrix<SMatrix<E,2,2>,3,3>", 2, history::<SMatrix<S2, 3, 3>>, <SMatrix<S2, 3, 3> as Obj>::menu),
        ("DVector<E>", 10, history::<DVector<E>>, <DVector<E> as Obj>::menu),
        ("DVector<Complex<E>>", 6, history::<DVector<CE>>, <DVector<CE> as Obj>::menu),
        ("DVector<SMatrix<E,2,2>>", 3, history::<DVector<S2>>, <DVector<S2> as Obj>::menu),
        ("DMatrix<E>", 10, history::<DMatrix<E>>, <DMatrix<E> as Obj>::menu),
        ("DMatrix<Complex<E>>", 6, history::<DMatrix<CE>>, <DMatrix<CE> as Obj>::menu),
        ("DMatrix<SMatrix<E,2,2>>", 4, history::<DMatrix<S2>>, <DMatrix<S2> as Obj>::menu),
    ]
}

pub fn run(f: &Focus) {
    if f.cats[..3].iter().max() >= f.cats[3..].iter().max() && chance(1, 8) {
        note(|| "machine numbers".into());
        return crate::ints::run(f);
    }
    // Families that have an operation of a category this run is about.
    let top = f.cats.iter().copied().max().unwrap();
    let cats = [Cat::Mul, Cat::Entry, Cat::Value, Cat::Reject, Cat::Late];
    let fams: Vec<Fam> = families()
        .into_iter()
        .filter(|x| x.3().iter().any(|m| (0..5).any(|k| cats[k] == m.1 && f.cats[k] == top)))
        .collect();
    let w: Vec<u64> = fams.iter().map(|x| x.1).collect();
    let k = weighted(&w);
    note(|| format!("family {}", fams[k].0));
    hash_in(k as u64);
    (fams[k].2)(f)
}

pub fn read<O: Obj>(o: &O, guess: &Arr) -> Result<Arr, String> {
    match attempt(|| O::norm(o.read(guess))) {
        Out::Ok(a) => Ok(a),
        e => Err(why(&e)),
    }
}
pub fn why<R>(o: &Out<R>) -> String {
    match o {
        Out::Ok(_) => "completed".into(),
        Out::Injected(s) => format!("the injected failure #{s}"),
        Out::Overflow => "an element overflow".into(),
        Out::Livelock => "livelock".into(),
        Out::Panic(m) => format!("the panic {m:?}"),
    }
}

struct Res<O> {
    out: Out<Option<Ret<O>>>,
    win: Win,
}
fn exec<O: Obj>(op: &Op<O>, slots: &mut [O], plan: Option<(u32, u64)>) -> Res<O> {
    arm(plan);
    let out = attempt(|| match &op.run {
        Run::Mut(f) => {
            f(slots);
            None
        }
        Run::Ref(f) => Some(f(slots)),
        Run::Late(_) => unreachable!(),
    });
    Res { out, win: disarm() }
}

/// Picks a fault for an operation that performs the given events. The
/// position is biased to the first and the last event.
pub fn pick_fault(w: &Win, weights: &[u64; 4]) -> Option<(u32, u64)> {
    let groups = [(M_ELEM, weights[1]), (M_SOURCE, weights[2]), (M_ALLOC, weights[3])];
    let mut ws = vec![weights[0]];
    for (m, x) in groups {
        ws.push(if w.count(m) > 0 { x } else { 0 });
    }
    if ws.iter().sum::<u64>() == 0 {
        return None;
    }
    let g = weighted(&ws);
    if g == 0 {
        return None;
    }
    let m = groups[g - 1].0;
    let n = w.count(m);
    let pos = match weighted(&[4, 1, 1]) {
        0 => below(n),
        1 => n - 1,
        _ => 0,
    };
    Some((m, pos))
}

pub fn value_of<O: Obj>(r: &Ret<O>, guess: &Arr) -> Result<Arr, String> {
    match r {
        Ret::Arr(a) => Ok(a.clone()),
        Ret::Obj(o) => read(o, &O::norm(guess.clone())),
    }
}
pub fn want<O: Obj>(r: &Ret<O>, e: &Arr) -> Arr {
    match r {
        Ret::Arr(_) => e.clone(),
        Ret::Obj(_) => O::norm(e.clone()),
    }
}

pub fn set_bound(b: u64) {
    BOUND.store(b, Relaxed);
}

/// How far an object may have any shape: mostly one common shape per run.
pub fn fill<O: Obj>() -> (Vec<O>, Vec<Arr>) {
    let common = O::shape();
    let n = range(2, 4);
    let mut slots = Vec::new();
    let mut model = Vec::new();
    for k in 0..n {
        let sh = if k > 0 && chance(1, 3) { O::shape() } else { common };
        let a = O::gen(sh);
        note_obj::<O>(k, &a);
        slots.push(O::build(&a));
        model.push(O::norm(a));
    }
    (slots, model)
}

pub fn history<O: Obj>(f: &Focus) {
    set_bound(if chance(1, 6) { 127 } else { 0 });
    history_in::<O>(f);
    set_bound(0);
}

fn history_in<O: Obj>(f: &Focus) {
    let menu = O::menu();
    let (mut slots, mut model) = fill::<O>();
    let mut lates: Vec<(String, Arr, Later)> = Vec::new();
    let cats = [Cat::Mul, Cat::Entry, Cat::Value, Cat::Reject, Cat::Late];
    let w: Vec<u64> = (0..5).map(|k| if menu.iter().any(|m| m.1 == cats[k]) { f.cats[k] } else { 0 }).collect();
    if w.iter().sum::<u64>() == 0 {
        return;
    }
    let steps = range(f.steps.0, f.steps.1);
    let size = |a: &Arr| a.d.iter().map(|m| m.len()).sum::<usize>();
    let limit = model.iter().map(|a| 2 * size(a)).max().unwrap_or(0).max(300);
    for step in 0..steps {
        if has_viol() {
            break;
        }
        // Keep sizes from growing without limit.
        for k in 0..slots.len() {
            if size(&model[k]) > limit {
                let a = O::gen(O::shape());
                slots[k] = O::build(&a);
                model[k] = O::norm(a);
            }
        }
        let cat = cats[weighted(&w)];
        let opts: Vec<&'static str> = menu.iter().filter(|m| m.1 == cat).map(|m| m.0).collect();
        let name = opts[idx(opts.len())];
        let Some(op) = O::make(name, &model) else { continue };
        hash_in(name.bytes().fold(7, |h: u64, b| h.wrapping_mul(31).wrapping_add(b as u64)));
        stat("operations", 1);
        if let Run::Late(mk) = &op.run {
            note(|| format!("step {step}: build lazy {} from slot {}", op.name, op.tgt));
            arm(None);
            let l = attempt(|| mk(&slots));
            disarm();
            match l {
                Out::Ok(l) => lates.push((op.name.clone(), op.expect.clone(), l)),
                e => violate("C12", "late-build", format!("building {} {} ended in {}", O::fam(), op.name, why(&e))),
            }
            continue;
        }
        step_op::<O>(&op, &mut slots, &mut model, f, step);
        if !lates.is_empty() && chance(1, 4) {
            run_late::<O>(&mut lates);
            check_others::<O>(&slots, &model, usize::MAX, "evaluating a lazy expression");
        }
    }
    while !lates.is_empty() && !has_viol() {
        run_late::<O>(&mut lates);
    }
    check_others::<O>(&slots, &model, usize::MAX, "the end of the history");
}

fn run_late<O: Obj>(lates: &mut Vec<(String, Arr, Later)>) {
    let (name, e, l) = lates.remove(0);
    stat("late evaluations", 1);
    arm(None);
    let r = attempt(l);
    disarm();
    match r {
        Out::Ok(a) if a == e => {}
        // Bounded elements: its exact value does not fit.
        Out::Overflow if BOUND.load(Relaxed) != 0 => stat("fault: element overflow", 1),
        Out::Ok(a) => violate("C12", "late-value", format!(
            "{} {name} evaluated later gave {} instead of {}", O::fam(), a.show(), e.show()
        )),
        o => violate("C12", "late-panic", format!("{} {name} evaluated later ended in {}", O::fam(), why(&o))),
    }
}

fn check_others<O: Obj>(slots: &[O], model: &[Arr], except: usize, after: &str) {
    for k in 0..slots.len() {
        if k == except {
            continue;
        }
        match read(&slots[k], &model[k]) {
            Ok(a) if a == model[k] => {}
            Ok(a) => violate("C12", "collateral", format!(
                "{} in slot {k} changed from {} to {} by {after}", O::fam(), model[k].show(), a.show()
            )),
            Err(e) => violate("C12", "collateral-unusable", format!(
                "{} in slot {k} became unreadable ({e}) by {after}", O::fam()
            )),
        }
    }
}

fn step_op<O: Obj>(op: &Op<O>, slots: &mut Vec<O>, model: &mut [Arr], f: &Focus, step: usize) {
    let t = op.tgt;
    let is_mut = matches!(op.run, Run::Mut(_));
    let what = format!("{} {} on slot {t}", O::fam(), op.name);
    let except = if is_mut { t } else { usize::MAX };

    if op.cat == Cat::Reject {
        note(|| format!("step {step}: rejected request {}", op.name));
        stat("fault: rejected request", 1);
        let r = exec(op, slots, None);
        match &r.out {
            Out::Panic(_) => {}
            Out::Ok(_) => violate("C16", &format!("accepted {}", op.name), format!(
                "{what} must be refused but was accepted (shape {}x{})", model[t].r, model[t].c
            )),
            o => violate("C16", "odd-refusal", format!("{what} ended in {}", why(o))),
        }
        if r.win.count(M_CODE) > 0 {
            violate("C16", &format!("late-refusal {}", op.name), format!(
                "{what} performed {} element or source operations before refusing", r.win.count(M_CODE)
            ));
        }
        match read(&slots[t], &model[t]) {
            Ok(a) if a == model[t] => {}
            Ok(a) => violate("C16", "refusal-changed-operand", format!(
                "{what}, refused, changed the operand from {} to {}", model[t].show(), a.show()
            )),
            Err(e) => violate("C16", "refusal-broke-operand", format!("{what}: operand unreadable ({e})")),
        }
        drop(r);
        check_others(slots, model, t, &what);
        return;
    }

    let own = match op.cat {
        Cat::Mul => "C10",
        Cat::Entry => "C11",
        _ => "C17",
    };
    // Fault-free rehearsal on clones: counts the events.
    let mut plan = None;
    let w = {
        let mut copy: Vec<O> = slots.iter().map(|o| o.dup()).collect();
        let r = exec(op, &mut copy, None);
        if matches!(r.out, Out::Ok(_)) {
            plan = pick_fault(&r.win, &f.faults);
        }
        r.win
    };
    note(|| format!("step {step}: {what}, fault {}", match plan {
        None => "none".to_string(),
        Some((m, n)) => format!("at {} event {n} of {}", mask_name(m), w.count(m)),
    }));
    let mut r = exec(op, slots, plan);
    if plan.is_some() && r.win.fired.is_none() {
        // The real run performed fewer events than the rehearsal (alignment
        // or capacity dependent): simply not a faulted run.
        stat("faults not reached", 1);
    }
    let mut failed = false;
    match &r.out {
        Out::Ok(v) => {
            if r.win.fired.is_some() && own != "C10" {
                violate(own, &format!("swallowed {}", op.name), format!("{what}: a failure inside it was swallowed"));
            }
            if let Some(v) = v {
                let e = want(v, &op.expect);
                match value_of(v, &op.expect) {
                    Ok(a) if a == e => {}
                    Ok(a) => violate(own, &format!("wrong-value {}", op.name), format!(
                        "{what} returned {} instead of {}", a.show(), e.show()
                    )),
                    Err(x) => violate(own, "unusable-result", format!("{what}: result unreadable ({x})")),
                }
            }
        }
        Out::Injected(s) => {
            failed = true;
            if r.win.fired != Some(*s) {
                violate(own, "foreign-failure", format!("{what}: failure #{s} does not belong to this operation"));
            }
        }
        Out::Overflow => {
            failed = true;
            stat("fault: element overflow", 1);
        }
        o => {
            failed = true;
            if r.win.fired.is_none() && !r.win.overflow {
                let m = format!("{what} on valid operands ended in {}", why(o));
                violate(own, &format!("refused {}", op.name), m.clone());
                violate("C16", &format!("refused {}", op.name), m);
            } else if own != "C10" {
                violate(own, &format!("replaced {}", op.name), format!(
                    "{what}: the failure inside it was replaced by {}", why(o)
                ));
            }
        }
    }
    if failed && own == "C17" && r.win.after > 0 {
        violate("C17", &format!("arithmetic-after-failure {}", op.name), format!(
            "{what}: {} more element or source operations after the failure", r.win.after
        ));
    }
    // Everything else is untouched.
    check_others(slots, model, except, &what);
    if is_mut {
        let old = model[t].clone();
        let new = O::norm(op.expect.clone());
        let guess = if failed { &old } else { &new };
        match read(&slots[t], guess) {
            Err(e) => {
                violate(own, &format!("unusable {}", op.name), format!("{what}: target unreadable afterwards ({e})"));
                return;
            }
            Ok(cur) => {
                if !failed {
                    if cur != new {
                        violate(own, &format!("wrong-result {}", op.name), format!(
                            "{what}: {} became {} instead of {}", old.show(), cur.show(), new.show()
                        ));
                        return;
                    }
                } else if own == "C10" {
                    if cur != old {
                        violate(own, &format!("torn {}", op.name), format!(
                            "{what} failed midway but changed its left operand from {} to {}", old.show(), cur.show()
                        ));
                        return;
                    }
                } else if !entries_ok::<O>(&cur, &old, &op.expect) {
                    violate(own, &format!("torn {}", op.name), format!(
                        "{what} failed midway: {} became {}, new value {}", old.show(), cur.show(), new.show()
                    ));
                    return;
                }
                model[t] = cur;
            }
        }
    }
    if failed && r.win.fired.is_some() && own != "C11" && !has_viol() {
        // The failure was transient: the same operation must now succeed
        // exactly (unless the operands themselves overflow).
        stat("retries after a failure", 1);
        r = exec(op, slots, None);
        match &r.out {
            Out::Ok(v) => {
                let (got, e) = match v {
                    Some(v) => (value_of(v, &op.expect), want(v, &op.expect)),
                    None => (read(&slots[t], &O::norm(op.expect.clone())), O::norm(op.expect.clone())),
                };
                match got {
                    Ok(a) if a == e => {
                        if is_mut {
                            model[t] = a;
                        }
                    }
                    Ok(a) => violate(own, &format!("retry-wrong {}", op.name), format!(
                        "{what} repeated after a failure gave {} instead of {}", a.show(), e.show()
                    )),
                    Err(x) => violate(own, "retry-unusable", format!("{what} repeated after a failure: unreadable ({x})")),
                }
            }
            Out::Overflow => {}
            o => violate(own, &format!("retry-failed {}", op.name), format!(
                "{what} repeated after a failure ended in {}", why(o)
            )),
        }
        check_others(slots, model, except, &what);
    }
    // Results become operands of later steps.
    if let Out::Ok(Some(Ret::Obj(o))) = r.out {
        if !has_viol() && chance(1, 3) {
            let k = idx(slots.len());
            model[k] = O::norm(op.expect.clone());
            slots[k] = o;
        }
    }
}

fn entries_ok<O: Obj>(cur: &Arr, old: &Arr, new_raw: &Arr) -> bool {
    if !O::OPEN && !cur.same(old) {
        return false;
    }
    let z = vec![];
    let n = cur.d.len().max(old.d.len()).max(new_raw.d.len());
    (0..n).all(|k| {
        old_or_new(
            cur.d.get(k).unwrap_or(&z),
            old.d.get(k).unwrap_or(&z),
            new_raw.d.get(k).unwrap_or(&z),
        )
    })
}

pub fn mask_name(m: u32) -> &'static str {
    match m {
        M_ELEM => "element",
        M_SOURCE => "source",
        M_ALLOC => "allocation",
        M_CMP => "comparison",
        M_DRAW => "draw",
        M_SCALAR => "scalar",
        _ => "callback",
    }
}
