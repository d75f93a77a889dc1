//! The search: worker processes, minimisation, replay files, evidence.

use crate::alloc::{ACTIVE, LIB_ALIVE};
use crate::ctx::{self, RunOut, Viol, KNAMES, NK};
use crate::props::{self, Prop};
use crate::tape::{mix, Tape};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::mpsc;
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(90);

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}
/// Two builds of the library take part: with overflow and debug assertion
/// checks (even workers), and as shipped, without them (odd workers).
const BUILDS: [&str; 2] = ["release", "shipped"];
fn my_build() -> String {
    let me = std::env::current_exe().unwrap();
    me.parent().and_then(|d| d.file_name()).map(|d| d.to_string_lossy().into_owned()).unwrap_or_default()
}
fn exe(build: &str) -> PathBuf {
    let me = std::env::current_exe().unwrap();
    let other = me.parent().and_then(|d| d.parent()).map(|d| d.join(build).join("sim"));
    other.filter(|p| p.exists()).unwrap_or(me)
}
fn prop(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}
pub fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    let h = id.bytes().fold(17, |h: u64, b| mix(h, b as u64));
    mix(mix(seed, h), i)
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let s = |k: usize| a.get(k).map(|s| s.as_str()).unwrap_or("");
    let n = |k: usize| s(k).parse::<u64>().unwrap_or(0);
    std::alloc::set_alloc_error_hook(crate::alloc::oom_hook);
    match s(1) {
        "check" => check(s(2)),
        "work" => work(s(2), n(3), n(4), n(5), n(6), n(7)),
        "replay" => replay(s(2), true),
        "try" => replay(s(2), false),
        "min" => minimise_cmd(s(2)),
        "selftest" => selftest(n(2).max(50)),
        "digest" => digest(s(2), n(3), n(4), n(5)),
        _ => {
            eprintln!("usage: sim check <property> | replay <file> | selftest [runs]");
            2
        }
    }
}

// ---- one run ------------------------------------------------------------

fn silence() {
    std::panic::set_hook(Box::new(|_| {}));
    ACTIVE.store(true, Relaxed);
}

fn once(p: &Prop, t: Tape, logging: bool) -> RunOut {
    ctx::start(t, logging);
    let r = catch_unwind(AssertUnwindSafe(p.run));
    if let Err(e) = r {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "a foreign payload".into());
        ctx::violate(p.id, "escaped-panic", format!("a panic escaped where none is possible: {m}"));
    }
    ctx::finish()
}

/// Findings that are recorded in known-findings.txt as not repaired, as lines
/// "known: property=ID class=CLASS: what fails".
fn known() -> &'static Vec<(String, String, String)> {
    static KNOWN: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
    KNOWN.get_or_init(|| {
        let s = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
        s.lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (id, l) = l.split_once(" class=")?;
                let (class, what) = l.split_once(": ")?;
                Some((id.to_string(), class.to_string(), what.to_string()))
            })
            .collect()
    })
}
fn is_known(v: &Viol) -> bool {
    known().iter().any(|k| k.0 == v.prop && k.1 == v.class)
}

/// Executes a run and keeps the violations of `p`. For C13 a run that leaves
/// library memory behind is executed again: memory that every further
/// execution adds to is not a one-time initialisation.
fn exec(p: &Prop, t: Tape, logging: bool) -> RunOut {
    let before = LIB_ALIVE.load(Relaxed);
    let mut o = once(p, t, logging);
    let left = LIB_ALIVE.load(Relaxed) - before;
    o.viol.retain(|v| v.prop == p.id || v.prop == "HARNESS");
    let (known, viol) = o.viol.drain(..).partition(|v| is_known(v));
    (o.known, o.viol) = (known, viol);
    if p.memory && o.viol.is_empty() && left > 0 {
        let mut growing = true;
        for _ in 0..10 {
            let before = LIB_ALIVE.load(Relaxed);
            drop(once(p, Tape::replay(o.tape.clone()), false));
            growing &= LIB_ALIVE.load(Relaxed) > before;
        }
        if growing {
            o.viol.push(Viol {
                prop: p.id,
                class: "memory-growth".into(),
                msg: format!("every execution of this run leaves bytes allocated, the first one {left}"),
            });
            o.log.push(format!("VIOLATION {}", o.viol[0].msg));
        }
    }
    o
}

/// Watches the memory held by the library over a long series of runs: it
/// must not keep growing with the number of runs.
#[derive(Default)]
struct Meter {
    runs: u64,
    /// Bytes held after 1, 2, 4, 8, .. runs.
    marks: Vec<i64>,
}
impl Meter {
    fn after(&mut self, p: &Prop, o: &mut RunOut) {
        self.runs += 1;
        if !p.memory || !self.runs.is_power_of_two() {
            return;
        }
        self.marks.push(LIB_ALIVE.load(Relaxed));
        let n = self.marks.len();
        if self.runs < 8192 || !o.viol.is_empty() {
            return;
        }
        let m = &self.marks[n - 5..];
        let grew = m.windows(2).filter(|w| w[1] > w[0]).count();
        if grew >= 3 && m[4] >= 512 && m[4] >= 2 * m[2] {
            o.viol.push(Viol {
                prop: p.id,
                class: "memory-accumulates".into(),
                msg: format!(
                    "memory held after {}, {}, {}, {} and {} runs, all results dropped: {:?} bytes",
                    self.runs / 16, self.runs / 8, self.runs / 4, self.runs / 2, self.runs, m
                ),
            });
            o.log.push(format!("VIOLATION {}", o.viol[0].msg));
        }
    }
}

// ---- worker -------------------------------------------------------------

fn say(s: &str) {
    let mut o = std::io::stdout();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}
fn hex(s: &str) -> String {
    s.bytes().fold(String::new(), |mut a, b| {
        let _ = write!(a, "{b:02x}");
        a
    })
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> =
        (0..s.len() / 2).filter_map(|i| s.get(2 * i..2 * i + 2).and_then(|x| u8::from_str_radix(x, 16).ok())).collect();
    String::from_utf8_lossy(&b).into_owned()
}

fn work(id: &str, seed: u64, w: u64, of: u64, n: u64, cap_s: u64) -> i32 {
    silence();
    let p = prop(id);
    let t0 = Instant::now();
    let mut ev = [0u64; NK];
    let mut fired = [0u64; NK];
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut runs, mut nontriv) = (0u64, 0u64);
    let mut i = w;
    let mut samples = 0;
    let mut meter = Meter::default();
    let mut told: HashSet<String> = HashSet::new();
    while i < n {
        if runs % 64 == 0 && t0.elapsed().as_secs() > cap_s {
            say("T\n");
            break;
        }
        say(&format!("R {i}\n"));
        let sample = w == 0 && samples < 3;
        let mut o = exec(&p, Tape::gen(run_seed(seed, id, i)), sample);
        meter.after(&p, &mut o);
        runs += 1;
        let nt = props::nontrivial(id, &o);
        if nt {
            nontriv += 1;
            if hashes.len() < 4_000_000 {
                hashes.insert(o.hash);
            }
            if sample {
                samples += 1;
                say(&format!("S {}\n", hex(&format!("run {i}: {}", o.log.join("; ")).chars().take(1500).collect::<String>())));
            }
        }
        for k in 0..NK {
            ev[k] += o.ev[k];
            fired[k] += o.fired[k];
        }
        for (k, v) in &o.stats {
            *stats.entry(k).or_insert(0) += v;
        }
        for v in &o.known {
            if told.insert(v.class.clone()) {
                say(&format!("F {}\n", hex(&v.class)));
            }
        }
        if let Some(v) = o.viol.first() {
            let t: Vec<String> = o.tape.iter().map(|x| x.to_string()).collect();
            say(&format!("V {i} {} {} {}\n", hex(&v.class), hex(&v.msg), t.join(",")));
            break;
        }
        i += of;
    }
    say(&format!("N {runs} {nontriv}\n"));
    for k in 0..NK {
        say(&format!("K {k} {} {}\n", ev[k], fired[k]));
    }
    for (k, v) in stats {
        say(&format!("Q {v} {k}\n"));
    }
    for c in hashes.iter().collect::<Vec<_>>().chunks(1000) {
        let l: Vec<String> = c.iter().map(|h| format!("{h:x}")).collect();
        say(&format!("H {}\n", l.join(" ")));
    }
    say("D\n");
    0
}

// ---- parent -------------------------------------------------------------

struct Found {
    run: u64,
    class: String,
    msg: String,
    tape: Option<Vec<u64>>,
    /// The worker's earlier runs, if the run alone does not reproduce.
    worker: (u64, u64),
}

fn check(id: &str) -> i32 {
    let p = prop(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let scale: f64 = std::env::var("SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = ((if tier == "quick" { p.quick } else { p.thorough }) as f64 * scale) as u64;
    let cap: u64 = if tier == "quick" { 300 } else { 1500 };
    let of: u64 = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    println!("property {id}, tier {tier}, VERIF_SEED {seed}, {n} runs on {of} workers");
    let t0 = Instant::now();
    for b in BUILDS {
        if !exe(b).ends_with(format!("{b}/sim")) {
            eprintln!("harness error: the {b} build is missing");
            return 2;
        }
    }
    let (tx, rx) = mpsc::channel::<(u64, Option<String>)>();
    let mut kids = Vec::new();
    for w in 0..of {
        let args = [id.to_string(), seed.to_string(), w.to_string(), of.to_string(), n.to_string(), cap.to_string()];
        let mut c = Command::new(exe(BUILDS[w as usize % 2]))
            .arg("work")
            .args(&args)
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .stdin(Stdio::null())
            .spawn()
            .expect("cannot start a worker");
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send((w, Some(l))).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send((w, None));
        });
        kids.push(c);
    }
    drop(tx);
    let nw = of as usize;
    let mut cur = vec![None::<u64>; nw];
    let mut seen = vec![Instant::now(); nw];
    let mut done = vec![false; nw];
    let mut closed = vec![false; nw];
    let mut found: Vec<Found> = Vec::new();
    let (mut runs, mut nontriv) = (0u64, 0u64);
    let mut ev = [0u64; NK];
    let mut fired = [0u64; NK];
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut truncated = false;
    let mut findings: HashSet<String> = HashSet::new();
    let mut harness_error: Option<String> = None;
    loop {
        let best = found.iter().map(|f| f.run).min();
        // A worker is still needed if it may find an earlier violation.
        let need = |w: usize| !closed[w] && best.map_or(true, |b| cur[w].map_or(true, |c| c < b));
        if !(0..nw).any(need) {
            break;
        }
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok((w, Some(l))) => {
                let w = w as usize;
                seen[w] = Instant::now();
                let mut f = l.splitn(2, ' ');
                let (tag, rest) = (f.next().unwrap_or(""), f.next().unwrap_or(""));
                match tag {
                    "R" => cur[w] = rest.parse().ok(),
                    "T" => truncated = true,
                    "F" => {
                        findings.insert(unhex(rest));
                    }
                    "D" => done[w] = true,
                    "S" => samples.push(unhex(rest)),
                    "N" => {
                        let v: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                        runs += v[0];
                        nontriv += v[1];
                    }
                    "K" => {
                        let v: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                        ev[v[0] as usize] += v[1];
                        fired[v[0] as usize] += v[2];
                    }
                    "Q" => {
                        let mut x = rest.splitn(2, ' ');
                        let v: u64 = x.next().unwrap_or("0").parse().unwrap_or(0);
                        *stats.entry(x.next().unwrap_or("").to_string()).or_insert(0) += v;
                    }
                    "H" => hashes.extend(rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok())),
                    "V" => {
                        let x: Vec<&str> = rest.splitn(4, ' ').collect();
                        found.push(Found {
                            run: x[0].parse().unwrap_or(0),
                            class: unhex(x[1]),
                            msg: unhex(x[2]),
                            tape: Some(x[3].split(',').filter_map(|v| v.parse().ok()).collect()),
                            worker: (w as u64, of),
                        });
                    }
                    _ => {}
                }
            }
            Ok((w, None)) => {
                let wi = w as usize;
                closed[wi] = true;
                let st = kids[wi].wait().expect("wait");
                if !done[wi] {
                    if st.signal() == Some(9) || cur[wi].is_none() {
                        harness_error = Some(format!("worker {w} was ended from outside ({st})"));
                        break;
                    }
                    found.push(Found {
                        run: cur[wi].unwrap(),
                        class: "crash".into(),
                        msg: format!("the process died ({st})"),
                        tape: None,
                        worker: (w, of),
                    });
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for w in 0..nw {
            if !closed[w] && seen[w].elapsed() > HANG {
                let _ = kids[w].kill();
                let _ = kids[w].wait();
                closed[w] = true;
                done[w] = true;
                match cur[w] {
                    Some(run) => found.push(Found {
                        run,
                        class: "hang".into(),
                        msg: format!("the run made no progress for {} s", HANG.as_secs()),
                        tape: None,
                        worker: (w as u64, of),
                    }),
                    None => harness_error = Some(format!("worker {w} never started")),
                }
            }
        }
        if harness_error.is_some() {
            break;
        }
    }
    for k in kids.iter_mut() {
        let _ = k.kill();
        let _ = k.wait();
    }
    if let Some(e) = harness_error {
        eprintln!("harness error: {e}");
        return 2;
    }
    for k in known().iter().filter(|k| k.0 == id && findings.contains(&k.1)) {
        println!("KNOWN-FINDING: property={id} {}: {}", k.1, k.2);
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    found.sort_by_key(|f| f.run);
    if let Some(f) = found.first() {
        match report(&p, seed, f) {
            Some(path) => {
                println!("VIOLATION property={id} replay={}", path.display());
                code = 1;
            }
            None => {
                eprintln!("harness error: {}", f.msg);
                code = 2;
            }
        }
    }
    let e = Ev {
        p: &p, tier, seed, runs, nontriv, distinct: hashes.len() as u64, ev, fired, stats, samples, truncated, planned: n,
        search_s, wall: t0.elapsed().as_secs_f64(), violations: (code == 1) as u64, workers: of,
    };
    if let Err(x) = evidence(&e) {
        eprintln!("harness error: cannot write the evidence: {x}");
        return 2;
    }
    println!(
        "{runs} runs, {nontriv} non-trivial, {} distinct, {} faults fired, {:.1} s",
        e.distinct,
        fired.iter().sum::<u64>() + e.stats.iter().filter(|(k, _)| k.starts_with("fault: ")).map(|x| x.1).sum::<u64>(),
        e.wall
    );
    if code == 0 {
        println!("OK {id}");
    }
    code
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Ev<'a> {
    p: &'a Prop,
    tier: &'a str,
    seed: u64,
    runs: u64,
    nontriv: u64,
    distinct: u64,
    ev: [u64; NK],
    fired: [u64; NK],
    stats: BTreeMap<String, u64>,
    samples: Vec<String>,
    truncated: bool,
    planned: u64,
    search_s: f64,
    wall: f64,
    violations: u64,
    workers: u64,
}
fn evidence(e: &Ev) -> std::io::Result<()> {
    let per_hour = if e.search_s > 0.0 { e.runs as f64 / e.search_s * 3600.0 } else { 0.0 };
    let map = |v: Vec<(String, u64)>| {
        let s: Vec<String> = v.into_iter().filter(|x| x.1 > 0).map(|(k, v)| format!("{}: {v}", jstr(&k))).collect();
        format!("{{{}}}", s.join(", "))
    };
    let steps: u64 = e.ev.iter().sum();
    let samples: Vec<String> = e.samples.iter().map(|s| jstr(s)).collect();
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \
         \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial_runs\": {},\n  \"rule\": {},\n  \
         \"distinct_measure\": \"distinct 64-bit fingerprints of the sequence of (simulated thread, seam event, fault) of a non-trivial run\",\n  \
         \"planned_runs\": {},\n  \"stopped_by_time_limit\": {},\n  \"runs_and_seeds_per_hour\": {:.0},\n  \"workers\": {},\n  \
         \"simulated_time_in_seam_events\": {steps},\n  \"seam_events\": {},\n  \"faults_injected\": {},\n  \"probes\": {},\n  \
         \"real_code\": {},\n  \"stubs\": {},\n  \"samples\": [{}]\n }},\n \
         \"assumptions\": [\"callbacks fail by panicking and the library unwinds (panic=unwind)\", \"single machine, one address space: schedules are interleavings at seam events, not weak-memory effects\"],\n \
         \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(e.p.id), jstr(e.tier), e.seed, e.runs, e.distinct, e.nontriv, jstr(e.p.rule), e.planned, e.truncated, per_hour, e.workers,
        map((0..NK).map(|k| (KNAMES[k].to_string(), e.ev[k])).collect()),
        map((0..NK)
            .map(|k| (format!("failing {}", KNAMES[k]), e.fired[k]))
            .chain(e.stats.iter().filter_map(|(k, v)| Some((k.strip_prefix("fault: ")?.to_string(), *v))))
            .collect()),
        map(e.stats.iter().filter(|(k, _)| !k.starts_with("fault: ")).map(|(k, v)| (k.clone(), *v)).collect()),
        jstr(e.p.real), jstr(e.p.stub), samples.join(", "), e.wall, e.violations,
    );
    let d = root().join("evidence");
    std::fs::create_dir_all(&d)?;
    std::fs::write(d.join(format!("{}.json", e.p.id)), j)
}

// ---- reports and replay files -------------------------------------------

struct Rep {
    property: String,
    class: String,
    msg: String,
    kind: String, // tape | seed | history
    build: String,
    seed: u64,
    run: u64,
    worker: (u64, u64),
    tape: Vec<u64>,
    log: Vec<String>,
}
fn write_rep(r: &Rep, path: &Path) {
    let t: Vec<String> = r.tape.iter().map(|x| x.to_string()).collect();
    let l: Vec<String> = r.log.iter().map(|s| format!("  {}", jstr(s))).collect();
    let j = format!(
        "{{\n \"property\": {},\n \"class\": {},\n \"message\": {},\n \"kind\": {},\n \"build\": {},\n \"seed\": {},\n \"run\": {},\n \
         \"worker\": {},\n \"workers\": {},\n \"tape\": [{}],\n \"trace\": [\n{}\n ]\n}}\n",
        jstr(&r.property), jstr(&r.class), jstr(&r.msg), jstr(&r.kind), jstr(&r.build), r.seed, r.run, r.worker.0, r.worker.1,
        t.join(","), l.join(",\n")
    );
    std::fs::write(path, j).expect("cannot write a replay file");
}
fn field(s: &str, k: &str) -> String {
    let key = format!("\"{k}\": ");
    let Some(a) = s.find(&key) else { return String::new() };
    let r = &s[a + key.len()..];
    if let Some(q) = r.strip_prefix('"') {
        let mut o = String::new();
        let mut it = q.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => break,
                '\\' => match it.next() {
                    Some('n') => o.push('\n'),
                    Some('u') => {
                        let h: String = it.by_ref().take(4).collect();
                        o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                    }
                    Some(c) => o.push(c),
                    None => break,
                },
                c => o.push(c),
            }
        }
        o
    } else {
        let end = if r.starts_with('[') { r.find(']') } else { r.find([',', '\n', '}']) };
        r[..end.unwrap_or(r.len())].trim_start_matches('[').trim().to_string()
    }
}
fn read_rep(path: &str) -> Rep {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("cannot read {path}: {e}");
        std::process::exit(2)
    });
    let n = |k: &str| field(&s, k).parse().unwrap_or(0);
    Rep {
        property: field(&s, "property"),
        class: field(&s, "class"),
        msg: field(&s, "message"),
        kind: field(&s, "kind"),
        build: field(&s, "build"),
        seed: n("seed"),
        run: n("run"),
        worker: (n("worker"), n("workers")),
        tape: field(&s, "tape").split(',').filter_map(|x| x.trim().parse().ok()).collect(),
        log: vec![],
    }
}

/// Runs a replay file in this process. Exit 1 if the recorded violation
/// appears again (a crash reproduces by crashing), 0 if not.
fn replay(path: &str, talk: bool) -> i32 {
    let r = read_rep(path);
    if r.build != my_build() && exe(&r.build).ends_with(format!("{}/sim", r.build)) {
        use std::os::unix::process::CommandExt;
        let e = Command::new(exe(&r.build)).args([if talk { "replay" } else { "try" }, path]).exec();
        eprintln!("cannot start the {} build: {e}", r.build);
        return 2;
    }
    silence();
    let p = prop(&r.property);
    let o = match r.kind.as_str() {
        "tape" => exec(&p, Tape::replay(r.tape), true),
        "history" => {
            let mut i = r.worker.0;
            let mut meter = Meter::default();
            loop {
                let mut o = exec(&p, Tape::gen(run_seed(r.seed, p.id, i)), i == r.run);
                meter.after(&p, &mut o);
                if i >= r.run {
                    break o;
                }
                i += r.worker.1.max(1);
            }
        }
        _ => exec(&p, Tape::gen(run_seed(r.seed, p.id, r.run)), true),
    };
    if talk {
        for l in &o.log {
            println!("{l}");
        }
    }
    match o.viol.iter().find(|v| v.class == r.class) {
        Some(v) => {
            println!("REPRODUCED property={} class={} hash={:x}: {}", p.id, v.class, o.hash, v.msg);
            1
        }
        None => {
            println!("NOT-REPRODUCED");
            0
        }
    }
}

/// Runs `sim try` in a fresh process; true if the recorded class recurs.
fn confirm(path: &Path, build: &str, class: &str, limit: Duration) -> bool {
    let Ok(mut c) = Command::new(exe(build)).arg("try").arg(path).stdout(Stdio::null()).stderr(Stdio::null()).spawn() else {
        return false;
    };
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                return match class {
                    "crash" => st.code().is_none(),
                    "hang" => false,
                    _ => st.code() == Some(1),
                }
            }
            Ok(None) if t0.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                return class == "hang";
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    }
}

fn report(p: &Prop, seed: u64, f: &Found) -> Option<PathBuf> {
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).ok()?;
    let path = dir.join(format!("{}-{}-{}.json", p.id, seed, f.run));
    let mut r = Rep {
        property: p.id.into(),
        class: f.class.clone(),
        msg: f.msg.clone(),
        kind: if f.tape.is_some() { "tape" } else { "seed" }.into(),
        build: BUILDS[f.worker.0 as usize % 2].into(),
        seed,
        run: f.run,
        worker: f.worker,
        tape: f.tape.clone().unwrap_or_default(),
        log: vec![],
    };
    println!("run {} ({} build) violates {}: {}: {}", f.run, r.build, p.id, f.class, f.msg);
    if f.msg.is_empty() && f.class.is_empty() {
        return None;
    }
    write_rep(&r, &path);
    if f.tape.is_none() {
        let ok = confirm(&path, &r.build, &f.class, if f.class == "hang" { HANG / 3 } else { HANG });
        println!("replay of the run in a fresh process: {}", if ok { "same ending" } else { "did not end the same way" });
        return Some(path);
    }
    if f.class == "memory-accumulates" {
        r.kind = "history".into();
        write_rep(&r, &path);
        let ok = confirm(&path, &r.build, &f.class, Duration::from_secs(200));
        println!("replay of the worker's runs up to this one: {}", if ok { "reproduced" } else { "NOT reproduced" });
        return Some(path);
    }
    // Minimise in a process of its own (the run may crash in new ways).
    let small = dir.join(format!("{}-{}-{}.min.json", p.id, seed, f.run));
    let _ = std::fs::remove_file(&small);
    if let Ok(mut c) = Command::new(exe(&r.build)).arg("min").arg(&path).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
        let t0 = Instant::now();
        while matches!(c.try_wait(), Ok(None)) {
            if t0.elapsed() > Duration::from_secs(60) {
                let _ = c.kill();
                let _ = c.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    if small.exists() && confirm(&small, &r.build, &f.class, HANG) {
        let m = read_rep(small.to_str()?);
        println!("minimised from {} to {} choices: {}", r.tape.len(), m.tape.len(), m.msg);
        let s = std::fs::read_to_string(&small).ok()?;
        if let Some(a) = s.find("\"trace\": [") {
            for l in s[a..].lines().skip(1).take(40) {
                if l.trim() == "]" {
                    break;
                }
                println!("  {}", l.trim());
            }
        }
        let _ = std::fs::rename(&small, &path);
        return Some(path);
    }
    let _ = std::fs::remove_file(&small);
    if confirm(&path, &r.build, &f.class, HANG) {
        println!("not minimised");
        return Some(path);
    }
    // It takes the runs before it in the same process.
    r.kind = "history".into();
    write_rep(&r, &path);
    let ok = confirm(&path, &r.build, &f.class, Duration::from_secs(200));
    println!("replay needs the worker's earlier runs: {}", if ok { "reproduced" } else { "NOT reproduced, the code under test is itself nondeterministic" });
    Some(path)
}

// ---- minimisation -------------------------------------------------------

fn minimise_cmd(path: &str) -> i32 {
    silence();
    let r = read_rep(path);
    let p = prop(&r.property);
    let t0 = Instant::now();
    let limit = Duration::from_secs(20);
    let mut best = r.tape.clone();
    let mut tries = 0u32;
    // Only runs failing the same way count; the tape actually consumed is
    // what is kept.
    let mut attempt = |t: &[u64]| -> Option<Vec<u64>> {
        if t0.elapsed() > limit || tries > 6000 {
            return None;
        }
        tries += 1;
        let o = exec(&p, Tape::replay(t.to_vec()), false);
        if o.viol.iter().any(|v| v.class == r.class) {
            let mut k = o.tape;
            while k.last() == Some(&0) {
                k.pop();
            }
            Some(k)
        } else {
            None
        }
    };
    let cost = |t: &[u64]| (t.len(), t.iter().map(|x| 64 - x.leading_zeros() as u64).sum::<u64>());
    loop {
        let start = cost(&best);
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() {
                let end = (at + size).min(best.len());
                let mut c = best[..at].to_vec();
                c.extend_from_slice(&best[end..]);
                match attempt(&c) {
                    Some(k) if cost(&k) < cost(&best) => best = k,
                    _ => {
                        if best[at..end].iter().any(|&x| x != 0) {
                            let mut c = best.clone();
                            c[at..end].fill(0);
                            if let Some(k) = attempt(&c) {
                                if cost(&k) < cost(&best) {
                                    best = k;
                                }
                            }
                        }
                        at += size;
                    }
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut at = 0;
        while at < best.len() {
            for v in [best[at] / 2, best[at].wrapping_sub(1)] {
                if at < best.len() && v < best[at] {
                    let mut c = best.clone();
                    c[at] = v;
                    if let Some(k) = attempt(&c) {
                        if cost(&k) < cost(&best) {
                            best = k;
                        }
                    }
                }
            }
            at += 1;
        }
        if cost(&best) >= start || t0.elapsed() > limit {
            break;
        }
    }
    let o = exec(&p, Tape::replay(best.clone()), true);
    let Some(v) = o.viol.iter().find(|v| v.class == r.class) else { return 0 };
    let out = path.replace(".json", ".min.json");
    write_rep(
        &Rep {
            msg: v.msg.clone(),
            kind: "tape".into(),
            tape: best,
            log: o.log,
            property: r.property,
            build: r.build,
            class: r.class,
            seed: r.seed,
            run: r.run,
            worker: r.worker,
        },
        Path::new(&out),
    );
    0
}

// ---- determinism --------------------------------------------------------

fn digest(id: &str, seed: u64, n: u64, reps: u64) -> i32 {
    silence();
    let p = prop(id);
    for i in 0..n {
        for _ in 0..reps.max(1) {
            let o = exec(&p, Tape::gen(run_seed(seed, id, i)), true);
            let l = o.log.iter().flat_map(|s| s.bytes()).fold(1u64, |h, b| h.wrapping_mul(0x100000001b3) ^ b as u64);
            println!("{i} {:x} {l:x} {}", o.hash, o.tape.len());
        }
    }
    0
}

/// Every scenario, many seeds: in this process twice, and in other processes.
fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    for p in props::all() {
        let n = if p.quick < 1000 { 3 } else if p.quick < 5000 { n.min(40) } else { n };
        for seed in 1..=4u64 {
            let run = |reps: u64| {
                let o = Command::new(exe(BUILDS[seed as usize % 2]))
                    .args(["digest", p.id, &seed.to_string(), &n.to_string(), &reps.to_string()])
                    .output()
                    .expect("digest");
                String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect::<Vec<_>>()
            };
            let (a, b) = (run(1), run(2));
            let odd: Vec<_> = b.iter().step_by(2).cloned().collect();
            let even: Vec<_> = b.iter().skip(1).step_by(2).cloned().collect();
            if a != odd || a != even || a.len() as u64 != n {
                bad += 1;
                let k = (0..a.len()).find(|&k| odd.get(k) != a.get(k) || even.get(k) != a.get(k));
                println!("{} seed {seed}: executions differ, first at run {k:?}", p.id);
            }
        }
        println!("{}: {} runs x 4 seeds x 3 executions in 8 processes", p.id, n);
    }
    println!("{}", if bad == 0 { "deterministic" } else { "NOT DETERMINISTIC" });
    (bad > 0) as i32 * 2
}
