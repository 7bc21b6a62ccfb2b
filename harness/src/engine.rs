//! Exploration engine: a property is a list of families, a family is a finite indexed space cut
//! into units. A worker process explores all units on several threads; the supervisor watches it,
//! and re-runs alone whatever unit was in flight when the worker died or stopped making progress.

use crate::json::esc;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::{Relaxed, SeqCst}};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const MAX_THREADS: usize = 16;
const IDLE: u64 = u64::MAX;

pub type Run = Box<dyn Fn(u64, &mut Cx) + Send + Sync>;

pub struct Family {
    pub name: String,
    /// What is enumerated, within which bounds.
    pub bound: String,
    pub units: u64,
    pub run: Run,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Family>,
}

pub fn fam(name: impl Into<String>, bound: impl Into<String>, units: u64,
    run: impl Fn(u64, &mut Cx) + Send + Sync + 'static) -> Family {
    Family { name: name.into(), bound: bound.into(), units, run: Box::new(run) }
}

pub struct Violation { pub unit: u64, pub family: String, pub sig: String, pub detail: String }

/// Per-thread context handed to the units.
pub struct Cx {
    pub counts: BTreeMap<&'static str, u64>,
    pub violation: Option<Violation>,
    pub known_hits: BTreeMap<String, String>,
    pub samples: Vec<String>,
    pub thorough: bool,
    pub seed: u64,
    sample_left: u32,
    verbose: bool,
    known: std::sync::Arc<Vec<String>>,
    unit: u64,
    family: String,
    note: Option<&'static Shared>,
    beat: Option<&'static AtomicU64>,
    until: Option<Instant>,
    cut: bool,
}

impl Cx {
    fn new(thorough: bool, seed: u64, known: std::sync::Arc<Vec<String>>) -> Cx {
        Cx { counts: BTreeMap::new(), violation: None, known_hits: BTreeMap::new(), samples: vec![],
            thorough, seed, sample_left: 0, verbose: false, known, unit: 0, family: String::new(), note: None, beat: None, until: None, cut: false }
    }
    #[inline]
    pub fn add(&mut self, k: &'static str, n: u64) { if let Some(b) = self.beat { b.fetch_add(1, Relaxed); } *self.counts.entry(k).or_insert(0) += n; }
    #[inline]
    pub fn inc(&mut self, k: &'static str) { self.add(k, 1) }
    /// Whether a case should be written out as a sample.
    #[inline]
    pub fn wants_sample(&self) -> bool { self.sample_left > 0 }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample_left > 0 { self.sample_left -= 1; let s = f(); self.samples.push(s); }
    }
    /// Names the case about to run (only when a unit is re-run alone).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(sh) = self.note { sh.set_note(&f()); }
        else if self.verbose { eprintln!("case: {}", f()); }
    }
    /// Reports a violation. `sig` identifies the failing case.
    pub fn violation(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let (sig, detail) = (sig.into(), detail.into());
        if self.known.iter().any(|k| *k == sig) { self.known_hits.insert(sig, detail); return; }
        if self.violation.is_none() {
            self.violation = Some(Violation { unit: self.unit, family: self.family.clone(), sig, detail });
        }
    }
    /// Whether time is up; the unit then counts as not explored.
    pub fn late(&mut self) -> bool {
        if self.until.map_or(false, |u| Instant::now() > u) { self.cut = true; }
        self.cut
    }
    pub fn failed(&self) -> bool { self.violation.is_some() }
}

/// Runs code under test: a panic (or running out of read operations) becomes an error text.
pub fn guard<T>(budget: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    read_token::hook::set_budget(budget);
    let r = catch_unwind(AssertUnwindSafe(f));
    read_token::hook::set_budget(u64::MAX);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { format!("panicked: {}", s) }
        else if let Some(s) = e.downcast_ref::<String>() { format!("panicked: {}", s) }
        else { "panicked".into() }
    })
}

pub const BUDGET: u64 = 2_000_000;
/// Reading steps allowed for rule text of a length.
pub fn budget(len: usize) -> u64 { BUDGET + 400 * len as u64 }

// ---------------------------------------------------------------- shared memory

pub mod sys {
    use std::os::raw::{c_int, c_void};
    #[repr(C)]
    pub struct RLimit { pub cur: u64, pub max: u64 }
    extern "C" {
        pub fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
        pub fn setrlimit(r: c_int, l: *const RLimit) -> c_int;
        pub fn fork() -> c_int;
        pub fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
        pub fn _exit(c: c_int) -> !;
        pub fn kill(p: c_int, s: c_int) -> c_int;
        pub fn pipe(fds: *mut c_int) -> c_int;
        pub fn read(fd: c_int, b: *mut c_void, n: usize) -> isize;
        pub fn write(fd: c_int, b: *const c_void, n: usize) -> isize;
        pub fn close(fd: c_int) -> c_int;
        pub fn dup2(a: c_int, b: c_int) -> c_int;
    }
    pub fn limit_memory(bytes: u64) {
        let l = RLimit { cur: bytes, max: bytes };
        unsafe { setrlimit(9, &l); }
        let c = RLimit { cur: 0, max: 0 };
        unsafe { setrlimit(4, &c); }
    }
}

#[repr(C)]
pub struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    slots: [AtomicU64; MAX_THREADS],
    /// Grows while a unit makes progress.
    beats: [AtomicU64; MAX_THREADS],
    note_len: AtomicU64,
    note: [u8; 4096],
}

impl Shared {
    fn map(path: &Path) -> &'static Shared {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false)
            .open(path).expect("shared file");
        let size = std::mem::size_of::<Shared>();
        f.set_len(size as u64).unwrap();
        let p = unsafe { sys::mmap(std::ptr::null_mut(), size, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        unsafe { &*(p as *const Shared) }
    }
    fn set_note(&self, s: &str) {
        let mut n = s.len().min(4096);
        while !s.is_char_boundary(n) { n -= 1; }
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.note.as_ptr() as *mut u8, n); }
        self.note_len.store(n as u64, SeqCst);
    }
    fn get_note(&self) -> String {
        let n = self.note_len.load(SeqCst) as usize;
        String::from_utf8_lossy(&self.note[..n.min(4096)]).into_owned()
    }
}

// ---------------------------------------------------------------- worker

pub struct Opts { pub tier: String, pub seed: u64, pub out: PathBuf, pub verif: PathBuf }

impl Opts {
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    fn deadline(&self) -> Duration {
        Duration::from_secs(std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok())
            .unwrap_or(if self.thorough() { 780 } else { 420 }))
    }
}

pub fn quiet_panics() { std::panic::set_hook(Box::new(|_| {})); }

fn known(verif: &Path, id: &str) -> Vec<String> {
    // Lines: `known: property=<id> sig=<signature>` (comments and `fixed:` lines suppress nothing).
    std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} sig=", id)).map(|s| s.to_string()))
        .collect()
}

pub fn worker(p: &Prop, o: &Opts) -> i32 {
    quiet_panics();
    sys::limit_memory(16 << 30);
    let sh = Shared::map(&o.out.join("shared"));
    let total: u64 = p.families.iter().map(|f| f.units).sum();
    let known = std::sync::Arc::new(known(&o.verif, p.id));
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, MAX_THREADS);
    let merged: Mutex<(BTreeMap<&'static str, u64>, Vec<u64>, Vec<String>, Vec<Violation>, BTreeMap<String, String>)> =
        Mutex::new((BTreeMap::new(), vec![0; p.families.len()], vec![], vec![], BTreeMap::new()));
    let start = Instant::now();
    let deadline = o.deadline();
    std::thread::scope(|s| {
        for t in 0..threads {
            let (known, merged) = (known.clone(), &merged);
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                let mut cx = Cx::new(o.thorough(), o.seed, known);
                cx.beat = Some(&sh.beats[t]);
                cx.until = Some(start + deadline);
                let mut done = vec![0u64; p.families.len()];
                loop {
                    if sh.stop.load(SeqCst) != 0 || start.elapsed() > deadline { break; }
                    let u = sh.next.fetch_add(1, SeqCst);
                    if u >= total { break; }
                    sh.slots[t].store(u, SeqCst);
                    let (fi, local) = locate(p, u);
                    cx.unit = u;
                    cx.family.clone_from(&p.families[fi].name);
                    let n = p.families[fi].units;
                    cx.sample_left = if local == n / 2 || local + 1 == n { 1 } else { 0 };
                    (p.families[fi].run)(local, &mut cx);
                    if !cx.cut { done[fi] += 1; }
                    if cx.failed() { sh.stop.store(1, SeqCst); }
                }
                sh.slots[t].store(IDLE, SeqCst);
                let mut m = merged.lock().unwrap();
                for (k, v) in cx.counts { *m.0.entry(k).or_insert(0) += v; }
                for (i, d) in done.iter().enumerate() { m.1[i] += d; }
                m.2.extend(cx.samples);
                m.3.extend(cx.violation);
                m.4.extend(cx.known_hits);
            }).unwrap();
        }
    });
    let m = merged.into_inner().unwrap();
    let mut f = std::fs::File::create(o.out.join("result")).unwrap();
    for (k, v) in &m.0 { writeln!(f, "count\t{}\t{}", k, v).unwrap(); }
    for (i, d) in m.1.iter().enumerate() { writeln!(f, "family\t{}\t{}", i, d).unwrap(); }
    for s in m.2.iter().take(40) { writeln!(f, "sample\t{}", esc(s)).unwrap(); }
    for (k, d) in &m.4 { writeln!(f, "known\t{}\t{}", esc(k), esc(d)).unwrap(); }
    let mut v = m.3;
    v.sort_by_key(|v| v.unit);
    for v in v.iter().take(1) {
        writeln!(f, "violation\t{}\t{}\t{}\t{}", v.unit, esc(&v.family), esc(&v.sig), esc(&v.detail)).unwrap();
    }
    writeln!(f, "end").unwrap();
    0
}

fn locate(p: &Prop, mut u: u64) -> (usize, u64) {
    for (i, f) in p.families.iter().enumerate() {
        if u < f.units { return (i, u); }
        u -= f.units;
    }
    panic!("unit out of range")
}

/// Runs one unit alone; used for confirmation of crashes and for replay.
pub fn one_unit(p: &Prop, o: &Opts, unit: u64, verbose: bool) -> i32 {
    quiet_panics();
    sys::limit_memory(3 << 30);
    let known = std::sync::Arc::new(known(&o.verif, p.id));
    let mut cx = Cx::new(o.thorough(), o.seed, known);
    if verbose { cx.verbose = std::env::var("MC_VERBOSE").is_ok(); }
    else { let sh = Shared::map(&o.out.join("shared")); cx.note = Some(sh); cx.beat = Some(&sh.beats[0]); }
    let (fi, local) = locate(p, unit);
    cx.unit = unit;
    cx.family = p.families[fi].name.clone();
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || {
        (p.families[fi].run)(local, &mut cx);
        cx
    }).unwrap().join());
    let cx = r.expect("engine thread");
    if let Some(v) = &cx.violation {
        std::fs::write(o.out.join("one"), format!("{}\n{}", esc(&v.sig), esc(&v.detail))).ok();
        if verbose { println!("{}\n{}", v.sig, v.detail); }
        return 1;
    }
    0
}

// ---------------------------------------------------------------- supervisor

enum End { Exit(i32), Died(String), Hung }

fn watch(mut c: std::process::Child, mut hung: impl FnMut() -> bool) -> End {
    use std::os::unix::process::ExitStatusExt;
    loop {
        match c.try_wait().expect("wait") {
            Some(st) => return match st.code() {
                Some(x) => End::Exit(x),
                None => End::Died(format!("signal {}", st.signal().unwrap_or(0))),
            },
            None => {
                if hung() { let _ = c.kill(); let _ = c.wait(); return End::Hung; }
                std::thread::sleep(Duration::from_millis(30));
            }
        }
    }
}

pub fn supervise(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let _ = std::fs::remove_dir_all(&o.out);
    std::fs::create_dir_all(&o.out).unwrap();
    let exe = std::env::current_exe().unwrap();
    let sh = Shared::map(&o.out.join("shared"));
    for s in &sh.slots { s.store(IDLE, SeqCst); }
    let spawn = |args: &[String]| {
        let log = std::fs::File::create(o.out.join(format!("{}.log", args[0]))).unwrap();
        let log2 = log.try_clone().unwrap();
        Command::new(&exe).args(args).stdin(Stdio::null()).stdout(log).stderr(log2).spawn().unwrap()
    };
    let child = spawn(&["worker".into(), p.id.into(), o.tier.clone()]);
    let mut last: Vec<((u64, u64), Instant)> = (0..MAX_THREADS).map(|_| ((IDLE, 0), Instant::now())).collect();
    let end = watch(child, || {
        let mut h = false;
        for (i, s) in sh.slots.iter().enumerate() {
            let v = (s.load(SeqCst), sh.beats[i].load(SeqCst));
            if v != last[i].0 { last[i] = (v, Instant::now()); }
            else if v.0 != IDLE && last[i].1.elapsed() > Duration::from_secs(100) { h = true; }
        }
        h
    });
    let in_flight: Vec<u64> = {
        let mut v: Vec<u64> = sh.slots.iter().map(|s| s.load(SeqCst)).filter(|v| *v != IDLE).collect();
        v.sort(); v.dedup(); v
    };
    match end {
        End::Exit(0) => {}
        ref e => {
            let why = match e {
                End::Exit(c) => format!("worker exited with {}", c),
                End::Died(s) => format!("worker died: {}", s),
                _ => "worker made no progress for 100 s".into(),
            };
            eprintln!("{}; units in flight: {:?}", why, in_flight);
            for u in in_flight {
                let c = spawn(&["unit".into(), p.id.into(), o.tier.clone(), u.to_string()]);
                let mut t = Instant::now();
                sh.set_note("");
                let mut beat = 0;
                // A unit that still makes progress is not stuck; it is given up on without a verdict.
                let r = watch(c, || { let b = sh.beats[0].load(SeqCst); if b != beat { beat = b; t = Instant::now(); } t.elapsed() > Duration::from_secs(100) || t0.elapsed() > Duration::from_secs(860) });
                if t0.elapsed() > Duration::from_secs(860) && t.elapsed() < Duration::from_secs(60) { eprintln!("ENGINE ERROR: no time left"); return 2; }
                let (fi, local) = locate(p, u);
                let what = match r {
                    End::Exit(0) => continue,
                    End::Exit(1) => {
                        let s = std::fs::read_to_string(o.out.join("one")).unwrap_or_default();
                        let (a, b) = s.split_once('\n').unwrap_or(("\"\"", "\"\""));
                        return report(p, o, u, fi, local, a, b, t0);
                    }
                    End::Exit(c) => format!("process exit {} (memory exhausted or aborted)", c),
                    End::Died(s) => format!("process died: {} (stack overflow, abort or memory exhausted)", s),
                    End::Hung => "no result within 100 s".to_string(),
                };
                let note = sh.get_note();
                return report(p, o, u, fi, local, &esc(&format!("dies:{}", note)),
                    &esc(&format!("The call does not return: {}.\nCase: {}", what, note)), t0);
            }
            eprintln!("ENGINE ERROR: not reproduced by any unit that was in flight");
            return 2;
        }
    }
    let res = std::fs::read_to_string(o.out.join("result")).unwrap_or_default();
    if !res.ends_with("end\n") { eprintln!("ENGINE ERROR: incomplete result"); return 2; }
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut fams = vec![];
    let mut samples = vec![];
    let mut violation = None;
    for l in res.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "count" => { counts.insert(f[1].into(), f[2].parse().unwrap()); }
            "family" => fams.push(f[2].parse::<u64>().unwrap()),
            "sample" => samples.push(f[1].to_string()),
            "known" => println!("KNOWN-FINDING: property={} {}", p.id, f[1]),
            "violation" => violation = Some((f[1].parse::<u64>().unwrap(), f[3].to_string(), f[4].to_string())),
            _ => {}
        }
    }
    let n_viol = violation.is_some() as u32;
    write_evidence(p, o, &counts, &fams, &samples, n_viol, t0);
    if let Some((u, sig, detail)) = violation {
        let (fi, local) = locate(p, u);
        return print_violation(p, o, u, fi, local, &sig, &detail);
    }
    let done: u64 = fams.iter().sum();
    let total: u64 = p.families.iter().map(|f| f.units).sum();
    println!("{} {}: held on everything explored; {} of {} units, {:.1} s; {:?}", p.id, o.tier, done, total,
        t0.elapsed().as_secs_f64(), counts);
    0
}

fn report(p: &Prop, o: &Opts, u: u64, fi: usize, local: u64, sig: &str, detail: &str, t0: Instant) -> i32 {
    if known(&o.verif, p.id).iter().any(|k| esc(k) == sig) {
        println!("KNOWN-FINDING: property={} {}", p.id, sig);
        eprintln!("ENGINE ERROR: a known finding ended the worker; exclude it from the space");
        return 2;
    }
    write_evidence(p, o, &BTreeMap::new(), &vec![0; p.families.len()], &[], 1, t0);
    print_violation(p, o, u, fi, local, sig, detail)
}

fn print_violation(p: &Prop, o: &Opts, u: u64, fi: usize, local: u64, sig: &str, detail: &str) -> i32 {
    let dir = o.verif.join("out/replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}-{}.json", p.id, o.tier));
    std::fs::write(&path, format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"family\": {},\n \"unit\": {},\n \"unit_in_family\": {},\n \"signature\": {},\n \"detail\": {},\n \"replay\": {}\n}}\n",
        esc(p.id), esc(&o.tier), esc(&p.families[fi].name), u, local, sig, detail,
        esc(&format!("./check.sh {} {} replay {}", p.id, o.tier, u)))).unwrap();
    // The replay file has them in full.
    println!("signature: {}", cut(sig));
    println!("detail: {}", cut(&unesc(detail)));
    println!("VIOLATION property={} replay={}", p.id, path.display());
    1
}

fn cut(s: &str) -> String {
    match s.char_indices().nth(3000) { None => s.to_string(), Some((i, _)) => format!("{}... ({} bytes)", &s[..i], s.len()) }
}

fn unesc(s: &str) -> String { s.replace("\\n", "\n").replace("\\\"", "\"") }

fn write_evidence(p: &Prop, o: &Opts, counts: &BTreeMap<String, u64>, fams: &[u64], samples: &[String], viol: u32, t0: Instant) {
    let dir = o.verif.join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    let mut cov = vec![];
    let mut complete = viol == 0;
    let mut fs = vec![];
    for (i, f) in p.families.iter().enumerate() {
        if fams[i] != f.units { complete = false; }
        fs.push(format!("{{\"family\": {}, \"bound\": {}, \"units\": {}, \"units_explored\": {}}}",
            esc(&f.name), esc(&f.bound), f.units, fams[i]));
    }
    let get = |k: &str| counts.get(k).copied().unwrap_or(0);
    match p.level {
        "model_checking" => {
            cov.push(format!("\"states\": {}", get("states")));
            cov.push(format!("\"transitions\": {}", get("transitions")));
            cov.push(format!("\"traces_validated_against_impl\": {}", get("executions")));
        }
        _ => {
            cov.push(format!("\"evaluations\": {}", get("executions")));
            cov.push(format!("\"distinct_nontrivial\": {}", get("nontrivial")));
        }
    }
    cov.push(format!("\"rule\": {}", esc(p.rule)));
    cov.push(format!("\"samples\": [{}]", samples.join(", ")));
    cov.push(format!("\"exhaustive\": {}", complete));
    let skip: HashSet<&str> = ["states", "transitions", "executions"].into_iter().collect();
    let oc: Vec<String> = counts.iter().filter(|(k, _)| !skip.contains(k.as_str())
            && !(p.level != "model_checking" && k.as_str() == "nontrivial"))
        .map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    cov.push(format!("\"outcomes\": {{{}}}", oc.join(", ")));
    cov.push(format!("\"families\": [{}]", fs.join(", ")));
    let asm: Vec<String> = p.assumptions.iter().map(|a| esc(a)).collect();
    let body = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        esc(p.id), esc(&o.tier), o.seed, esc(p.level), cov.join(", "), asm.join(", "), t0.elapsed().as_secs_f64(), viol);
    std::fs::write(dir.join(format!("{}.json", p.id)), body).unwrap();
}
