//! Bounded exhaustive exploration engine.
//!
//! A property is a list of units; a unit is a finite, indexable set of executions of the real
//! code.  Every execution is identified by (unit, index) and is a deterministic function of it,
//! so a violation is replayed by running exactly that execution again.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type R = Result<(), String>;

const NSHARD: usize = 64;
const MAX_UNIT_VIOL: usize = 3;
const STATE_CAP: u64 = 40_000_000;

#[derive(Clone)]
struct Viol { unit: String, idx: u64, msg: String, kind: &'static str }
struct UnitStat { name: String, cases: u64, done: u64, trans: u64, wall: f64 }

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    only: Option<(String, u64)>,
    keep_going: bool,
    units: Mutex<Vec<UnitStat>>,
    viol: Mutex<Vec<Viol>>,
    known: Mutex<BTreeSet<String>>,
    known_tags: Vec<String>,
    states: Vec<Mutex<HashSet<u64>>>,
    nstates: AtomicU64,
    trans: AtomicU64,
    traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    notes: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    not_exhaustive: AtomicBool,
    start: Instant,
    case_limit_s: AtomicU64,
    slots: usize,
    ran_only: AtomicBool,
}

/// handle given to every execution
pub struct T<'a> {
    ctx: &'a Ctx,
    salt: u64,
    trans: Cell<u64>,
    traces: Cell<u64>,
    st: RefCell<Vec<u64>>,
    sample: RefCell<Option<String>>,
    want_sample: Cell<bool>,
    pub replaying: bool,
}

pub fn hash64(salt: u64, b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ salt.wrapping_mul(0x9E3779B97F4A7C15);
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
    h ^ (h >> 32)
}

impl<'a> T<'a> {
    /// one call into the implementation
    #[inline]
    pub fn step(&self) { self.trans.set(self.trans.get() + 1) }
    #[inline]
    pub fn steps(&self, n: u64) { self.trans.set(self.trans.get() + n) }
    /// one complete execution compared with the model
    #[inline]
    pub fn trace(&self) { self.traces.set(self.traces.get() + 1) }
    /// a distinct state (model state or observed outcome)
    pub fn state(&self, b: &[u8]) { self.st.borrow_mut().push(hash64(self.salt, b)) }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        if self.want_sample.get() && self.sample.borrow().is_none() { *self.sample.borrow_mut() = Some(f()); }
    }
    pub fn thorough(&self) -> bool { self.ctx.thorough }
    pub fn pick<V>(&self, quick: V, thorough: V) -> V { if self.ctx.thorough { thorough } else { quick } }
    /// compare implementation output with the model
    pub fn eq(&self, what: &dyn Fn() -> String, got: &[u8], want: &[u8]) -> R {
        self.trace();
        self.state(want);
        if got == want { Ok(()) } else { Err(format!("{}: got {} expected {}", what(), hx(got), hx(want))) }
    }
}

pub fn hx(b: &[u8]) -> String {
    let n = b.len();
    let mut s = String::new();
    if n <= 300 {
        for x in b { let _ = write!(s, "{:02x}", x); }
    } else {
        for x in &b[..140] { let _ = write!(s, "{:02x}", x); }
        s.push_str("..");
        for x in &b[n - 140..] { let _ = write!(s, "{:02x}", x); }
    }
    format!("[{}]{}", n, s)
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }
/// runs f; a panic becomes Err(message)
pub fn guarded<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
const NSLOT: usize = 64;

fn vroot() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }
fn slots_path(prop: &str) -> String { format!("{}/target/run/{}.slots", vroot(), prop) }

impl Ctx {
    fn new(prop: &str, tier: &str, only: Option<(String, u64)>) -> Ctx {
        let slots = {
            use std::os::unix::io::AsRawFd;
            let path = slots_path(prop);
            fs::create_dir_all(format!("{}/target/run", vroot())).ok();
            let f = fs::OpenOptions::new().create(true).read(true).write(true).truncate(true).open(&path);
            match f {
                Ok(f) => {
                    f.set_len(4096).ok();
                    let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
                    if p as isize == -1 { 0 } else { p as usize }
                }
                Err(_) => 0,
            }
        };
        let known_tags = fs::read_to_string(format!("{}/known_findings.txt", vroot())).unwrap_or_default().lines()
            .filter(|l| l.starts_with("known:") && l.contains(&format!("property={} ", prop)))
            .filter_map(|l| l.split_whitespace().find_map(|w| w.strip_prefix("tag=").map(|s| s.to_string()))).collect();
        Ctx {
            prop: prop.into(),
            thorough: tier == "thorough",
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
            threads: std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8)).min(NSLOT / 2),
            only,
            keep_going: std::env::var("VERIF_ALL").is_ok(),
            units: Mutex::new(vec![]),
            viol: Mutex::new(vec![]),
            known: Mutex::new(BTreeSet::new()),
            known_tags,
            states: (0..NSHARD).map(|_| Mutex::new(HashSet::new())).collect(),
            nstates: AtomicU64::new(0),
            trans: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            notes: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            not_exhaustive: AtomicBool::new(false),
            start: Instant::now(),
            case_limit_s: AtomicU64::new(150),
            slots,
            ran_only: AtomicBool::new(false),
        }
    }
    pub fn note(&self, s: impl Into<String>) { self.notes.lock().unwrap().push(s.into()) }
    pub fn assume(&self, s: impl Into<String>) { self.assumptions.lock().unwrap().push(s.into()) }
    pub fn pick<X>(&self, quick: X, thorough: X) -> X { if self.thorough { thorough } else { quick } }
    pub fn case_limit(&self, s: u64) { self.case_limit_s.store(s, Ordering::Relaxed) }

    fn slot(&self, th: usize, unit: u64, idx: u64) {
        if self.slots != 0 && th < NSLOT {
            unsafe {
                let p = (self.slots as *mut u64).add(th * 4);
                p.add(1).write_volatile(unit);
                p.add(2).write_volatile(idx);
                p.add(3).write_volatile(self.start.elapsed().as_secs());
                p.write_volatile(1);
            }
        }
    }
    fn slot_clear(&self, th: usize) {
        if self.slots != 0 && th < NSLOT { unsafe { (self.slots as *mut u64).add(th * 4).write_volatile(0) } }
    }

    /// `par` with usize indices
    pub fn each<F>(&self, unit: &str, n: usize, f: F)
    where F: Fn(usize, &T) -> R + Sync { self.par(unit, n as u64, |i, t| f(i as usize, t)) }

    /// explore executions 0..n of a unit
    pub fn par<F>(&self, unit: &str, n: u64, f: F)
    where F: Fn(u64, &T) -> R + Sync {
        if let Some((u, i)) = &self.only {
            if u != unit { return; }
            self.ran_only.store(true, Ordering::Relaxed);
            self.slot(0, 0, *i);
            if let Some(v) = self.run_one(unit, *i, &f, true) {
                self.viol.lock().unwrap().push(v);
            }
            self.slot_clear(0);
            return;
        }
        if !self.keep_going && !self.viol.lock().unwrap().is_empty() { return; }
        let t0 = Instant::now();
        let uid = {
            let mut u = self.units.lock().unwrap();
            if u.iter().any(|x| x.name == unit) { eprintln!("duplicate unit {}", unit); std::process::exit(2) }
            u.push(UnitStat { name: unit.into(), cases: n, done: 0, trans: 0, wall: 0.0 });
            let names: Vec<&str> = u.iter().map(|x| x.name.as_str()).collect();
            fs::write(format!("{}/target/run/{}.units", vroot(), self.prop), names.join("\n")).ok();
            (u.len() - 1) as u64
        };
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let tr0 = self.trans.load(Ordering::Relaxed);
        let nth = (self.threads as u64).min(n.max(1)) as usize;
        let chunk = (n / (nth as u64 * 32)).clamp(1, 512);
        let stop = AtomicBool::new(false);
        let nviol = AtomicU64::new(0);
        std::thread::scope(|s| {
            for th in 0..nth {
                let (next, done, stop, nviol, f) = (&next, &done, &stop, &nviol, &f);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= n || stop.load(Ordering::Relaxed) { break; }
                        for i in a..(a + chunk).min(n) {
                            self.slot(th, uid, i);
                            if let Some(v) = self.run_one(unit, i, f, false) {
                                self.viol.lock().unwrap().push(v);
                                if nviol.fetch_add(1, Ordering::Relaxed) + 1 >= MAX_UNIT_VIOL as u64 { stop.store(true, Ordering::Relaxed); }
                            }
                            done.fetch_add(1, Ordering::Relaxed);
                            if stop.load(Ordering::Relaxed) { break; }
                        }
                    }
                    self.slot_clear(th);
                }).unwrap();
            }
        });
        let mut u = self.units.lock().unwrap();
        let st = &mut u[uid as usize];
        st.done = done.load(Ordering::Relaxed);
        st.trans = self.trans.load(Ordering::Relaxed) - tr0;
        st.wall = t0.elapsed().as_secs_f64();
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("unit {:40} cases {:9} trans {:11} {:.2}s", unit, st.done, st.trans, st.wall);
        }
    }

    fn run_one<F>(&self, unit: &str, i: u64, f: &F, replaying: bool) -> Option<Viol>
    where F: Fn(u64, &T) -> R {
        let t = T {
            ctx: self,
            salt: hash64(0, unit.as_bytes()),
            trans: Cell::new(0),
            traces: Cell::new(0),
            st: RefCell::new(vec![]),
            sample: RefCell::new(None),
            want_sample: Cell::new(replaying || i < 2),
            replaying,
        };
        let r = guarded(|| f(i, &t));
        self.trans.fetch_add(t.trans.get(), Ordering::Relaxed);
        self.traces.fetch_add(t.traces.get(), Ordering::Relaxed);
        for h in t.st.into_inner() {
            if self.nstates.load(Ordering::Relaxed) >= STATE_CAP { break; }
            if self.states[(h >> 58) as usize % NSHARD].lock().unwrap().insert(h) { self.nstates.fetch_add(1, Ordering::Relaxed); }
        }
        if let Some(s) = t.sample.into_inner() {
            let mut v = self.samples.lock().unwrap();
            if v.len() < 24 { v.push(format!("{}#{}: {}", unit, i, s)); }
            if replaying { println!("case {}#{}: {}", unit, i, s); }
        }
        match r {
            Ok(Ok(())) => None,
            Ok(Err(m)) => {
                if let Some(tag) = m.strip_prefix("[KF:").and_then(|x| x.split(']').next()) {
                    if self.known_tags.iter().any(|k| k == tag) {
                        self.known.lock().unwrap().insert(m.clone().chars().take(400).collect());
                        return None;
                    }
                }
                Some(Viol { unit: unit.into(), idx: i, msg: m, kind: "mismatch" })
            }
            Err(m) => Some(Viol { unit: unit.into(), idx: i, msg: format!("panic: {}", m), kind: "panic" }),
        }
    }

    fn evidence(&self, nviol: usize) {
        let u = self.units.lock().unwrap();
        let complete = u.iter().all(|x| x.done == x.cases) && nviol == 0 && !self.not_exhaustive.load(Ordering::Relaxed);
        let mut s = String::new();
        let _ = write!(s, "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"exhaustive\":{},\"wall_s\":{:.3},",
            jstr(&self.prop), jstr(if self.thorough { "thorough" } else { "quick" }), self.seed, complete, self.start.elapsed().as_secs_f64());
        let _ = write!(s, "\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"cases\":{},\"units\":{{",
            self.nstates.load(Ordering::Relaxed), self.trans.load(Ordering::Relaxed), self.traces.load(Ordering::Relaxed), u.iter().map(|x| x.done).sum::<u64>());
        for (i, x) in u.iter().enumerate() {
            let _ = write!(s, "{}{}:{{\"cases\":{},\"of\":{},\"transitions\":{},\"wall_s\":{:.2}}}", if i > 0 { "," } else { "" }, jstr(&x.name), x.done, x.cases, x.trans, x.wall);
        }
        s.push_str("},\"samples\":[");
        for (i, x) in self.samples.lock().unwrap().iter().enumerate() {
            if i > 0 { s.push(',') }
            s.push_str(&jstr(&x.chars().take(900).collect::<String>()));
        }
        s.push_str("],\"notes\":[");
        for (i, x) in self.notes.lock().unwrap().iter().enumerate() {
            if i > 0 { s.push(',') }
            s.push_str(&jstr(x));
        }
        s.push_str("]},\"assumptions\":[");
        for (i, x) in self.assumptions.lock().unwrap().iter().enumerate() {
            if i > 0 { s.push(',') }
            s.push_str(&jstr(x));
        }
        let _ = write!(s, "],\"violations\":{}}}\n", nviol);
        fs::create_dir_all(format!("{}/evidence", vroot())).ok();
        if let Err(e) = fs::write(format!("{}/evidence/{}.json", vroot(), self.prop), s) {
            eprintln!("cannot write evidence: {}", e);
            std::process::exit(2);
        }
    }
}

fn write_replay(prop: &str, tier: &str, v: &Viol, repeat: &str) -> String {
    let dir = format!("{}/replays", vroot());
    fs::create_dir_all(&dir).ok();
    let clean: String = v.unit.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    let path = format!("{}/{}-{}-{}.json", dir, prop, clean, v.idx);
    let body = format!(
        "{{\"property\":{},\"tier\":{},\"unit\":{},\"index\":{},\"kind\":{},\"message\":{},\"second_run\":{},\"replay_command\":{}}}\n",
        jstr(prop), jstr(tier), jstr(&v.unit), v.idx, jstr(v.kind), jstr(&v.msg), jstr(repeat), jstr(&format!("{}/replay.sh {}", vroot(), path)));
    if let Err(e) = fs::write(&path, body) { eprintln!("cannot write replay file {}: {}", path, e); }
    path
}

/// Entry point of every check binary.
pub fn main(prop: &'static str, body: fn(&Ctx)) {
    let a: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mode = a.get(1).map(|s| s.as_str()).unwrap_or("supervise");
    match mode {
        // supervise: run the exploration in a child so that an abort or a fatal signal is judged too
        "supervise" => supervise(prop, &tier),
        "child" => child(prop, &tier, body),
        "one" => {
            let unit = a[2].clone();
            let idx: u64 = a[3].parse().unwrap();
            std::process::exit(one(prop, &tier, body, unit, idx));
        }
        m => { eprintln!("unknown mode {}", m); std::process::exit(2) }
    }
}

fn silence_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| if let Ok(mut p) = p.try_borrow_mut() { *p = format!("{} at {}", m, l); });
    }));
}

fn one(prop: &str, tier: &str, body: fn(&Ctx), unit: String, idx: u64) -> i32 {
    silence_panics();
    let ctx = Ctx::new(&format!("{}.one", prop), tier, Some((unit.clone(), idx)));
    let ctx = Ctx { prop: prop.into(), known_tags: vec![], ..ctx };
    body(&ctx);
    if !ctx.ran_only.load(Ordering::Relaxed) { eprintln!("no such unit {}", unit); return 2; }
    let v = ctx.viol.lock().unwrap().clone();
    match v.first() {
        None => { println!("holds: {} {}#{}", prop, unit, idx); 0 }
        Some(v) => { println!("violated: {} {}#{}: {}", prop, unit, idx, v.msg); 1 }
    }
}

fn child(prop: &str, tier: &str, body: fn(&Ctx)) {
    silence_panics();
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(prop, tier, None)));
    let tier_s: String = tier.to_string();
    // watchdog: a single execution that never ends is a violation
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        if ctx.slots == 0 { continue; }
        let now = ctx.start.elapsed().as_secs();
        for th in 0..NSLOT {
            let p = unsafe { (ctx.slots as *const u64).add(th * 4) };
            let (on, u, i, t) = unsafe { (p.read_volatile(), p.add(1).read_volatile(), p.add(2).read_volatile(), p.add(3).read_volatile()) };
            let limit = ctx.case_limit_s.load(Ordering::Relaxed);
            if on == 1 && now > t + limit {
                let name = ctx.units.lock().unwrap().get(u as usize).map(|x| x.name.clone()).unwrap_or_default();
                let v = Viol { unit: name, idx: i, msg: format!("execution did not finish within {} s", limit), kind: "hang" };
                let path = write_replay(&ctx.prop, &tier_s, &v, "not repeated");
                ctx.evidence(1);
                println!("VIOLATION property={} replay={}", ctx.prop, path);
                println!("  {}#{}: {}", v.unit, v.idx, v.msg);
                std::process::exit(1);
            }
        }
    });
    body(ctx);
    let v = ctx.viol.lock().unwrap().clone();
    ctx.evidence(v.len());
    for k in ctx.known.lock().unwrap().iter() { println!("KNOWN-FINDING: property={} {}", prop, k); }
    if v.is_empty() {
        let u = ctx.units.lock().unwrap();
        println!("{} {}: held on {} executions in {} units ({} calls, {} states, {:.1} s)", prop, tier, u.iter().map(|x| x.done).sum::<u64>(), u.len(),
            ctx.trans.load(Ordering::Relaxed), ctx.nstates.load(Ordering::Relaxed), ctx.start.elapsed().as_secs_f64());
        std::process::exit(0);
    }
    // repeat each violating execution once; the verdict of both runs is stored with it
    let t_rep = Instant::now();
    for x in v.iter().take(12) {
        let c2 = Ctx::new(&format!("{}.one", prop), tier, Some((x.unit.clone(), x.idx)));
        let again = if x.kind == "hang" || t_rep.elapsed().as_secs() > 60 { None } else { body(&c2); Some(c2.viol.lock().unwrap().clone()) };
        let rep = match again {
            Some(w) if w.len() == 1 && w[0].msg == x.msg => "identical".to_string(),
            Some(w) if !w.is_empty() => format!("different: {}", w[0].msg),
            Some(_) => "did not repeat".to_string(),
            None => "not repeated".to_string(),
        };
        let path = write_replay(prop, tier, x, &rep);
        println!("VIOLATION property={} replay={}", prop, path);
        println!("  {}#{}: {}", x.unit, x.idx, x.msg.chars().take(1500).collect::<String>());
    }
    std::process::exit(1);
}

fn supervise(prop: &'static str, tier: &str) {
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).arg("child").status();
    let st = match st { Ok(s) => s, Err(e) => { eprintln!("cannot start child: {}", e); std::process::exit(2) } };
    if let Some(c) = st.code() { std::process::exit(c); }
    // killed by a signal: find the execution responsible
    eprintln!("exploration died: {}", st);
    let raw = fs::read(slots_path(prop)).unwrap_or_default();
    let g = |o: usize| -> u64 { let mut b = [0u8; 8]; b.copy_from_slice(&raw[o..o + 8]); u64::from_le_bytes(b) };
    let mut cand = vec![];
    if raw.len() >= NSLOT * 32 {
        for th in 0..NSLOT { if g(th * 32) == 1 { cand.push((g(th * 32 + 8), g(th * 32 + 16))); } }
    }
    for (u, i) in cand {
        // unit numbers are turned into names by the list printed by the child
        let names = fs::read_to_string(format!("{}/target/run/{}.units", vroot(), prop)).unwrap_or_default();
        let unit = match names.lines().nth(u as usize) { Some(x) => x.to_string(), None => continue };
        let r = std::process::Command::new(&exe).args(&["one", &unit, &i.to_string()]).status();
        if let Ok(r) = r {
            if r.code().is_none() {
                let v = Viol { unit, idx: i, msg: format!("execution kills the process: {}", r), kind: "signal" };
                let path = write_replay(prop, tier, &v, "identical");
                let ctx = Ctx::new(&format!("{}.one", prop), tier, None);
                let ctx = Ctx { prop: prop.into(), ..ctx };
                ctx.samples.lock().unwrap().push(format!("{}#{}: {}", v.unit, v.idx, v.msg));
                ctx.evidence(1);
                println!("VIOLATION property={} replay={}", prop, path);
                println!("  {}#{}: {}", v.unit, v.idx, v.msg);
                std::process::exit(1);
            }
        }
    }
    eprintln!("no single execution reproduces it");
    std::process::exit(2);
}
