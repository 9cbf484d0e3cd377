//! Check driver: forks workers, hands out units, collects violations and counters, confirms every
//! violation by re-running its unit in a fresh process, writes evidence and replay files.
use crate::model::{self, M, Obs, Uni};
use drv::{Op, Res};
use mcrt::rt::{session, Cfg, Out};
use mcrt::{hash_bytes, mix, user};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const NW: usize = 8;
const TAB: usize = 1 << 23;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// stable identification of what failed (used for known findings)
    pub sig: String,
    pub msg: String,
}
pub fn viol<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), msg: msg.into() })
}

pub type Run = Box<dyn Fn(&mut Wk) -> Result<(), Viol>>;
pub struct Unit {
    pub label: String,
    pub run: Run,
}
pub fn unit(label: impl Into<String>, run: impl Fn(&mut Wk) -> Result<(), Viol> + 'static) -> Unit {
    Unit { label: label.into(), run: Box::new(run) }
}

#[repr(C)]
pub struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    incomplete: AtomicU64,
    hb: [AtomicU64; NW + 1],
    unit: [AtomicU64; NW + 1],
    nstates: AtomicU64,
    tab: [AtomicU64; TAB],
}

pub struct Wk {
    pub id: usize,
    pub base: String,
    pub tier: Tier,
    pub deadline: Instant,
    pub sh: &'static Shared,
    pub cnt: BTreeMap<String, u64>,
    pub known: Vec<(String, String)>,
    pub samples: Vec<String>,
    pub verbose: bool,
    /// what is being executed (for fatal reports)
    pub what: String,
    /// what was being executed when something was found to be left open
    pub leak_at: Option<String>,
    out: i32,
    unit: u64,
    ndir: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o
}
pub fn js(s: &str) -> String {
    format!("\"{}\"", esc(s))
}

static mut CUR: *mut Wk = std::ptr::null_mut();

fn on_fatal(kind: &str, msg: &str) -> ! {
    unsafe {
        if !CUR.is_null() {
            let w = &mut *CUR;
            let what = w.what.clone();
            if kind == "nondeterminism" {
                w.send('N', &format!("{}\x1f{}\x1f{} while running {}", w.unit, kind, msg, what));
            } else {
                w.send('V', &format!("{}\x1f{}:{:016x}\x1f{} while running {}", w.unit, kind, hash_s(&what), msg, what));
            }
            w.flush_counters();
            libc::_exit(3);
        }
        eprintln!("fatal {kind}: {msg}");
        libc::_exit(70)
    }
}

pub fn scratch_root() -> String {
    for d in ["/dev/shm", "/tmp"] {
        let p = format!("{d}/.mcprobe{}", std::process::id());
        if std::fs::write(&p, b"x").is_ok() {
            let _ = std::fs::remove_file(&p);
            return d.into();
        }
    }
    "/tmp".into()
}

pub fn wipe(dir: &str) {
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            let _ = std::fs::remove_file(e.path());
        }
    }
}

impl Wk {
    fn send(&mut self, tag: char, body: &str) {
        let s = format!("{tag}{}\x1e", body.replace('\x1e', " "));
        let b = s.as_bytes();
        let mut o = 0;
        while o < b.len() {
            let k = unsafe { libc::write(self.out, b[o..].as_ptr() as *const _, b.len() - o) };
            if k <= 0 {
                break;
            }
            o += k as usize;
        }
    }
    fn flush_counters(&mut self) {
        let c = std::mem::take(&mut self.cnt);
        for (k, v) in c {
            self.send('C', &format!("{k}\x1f{v}"));
        }
        let s = std::mem::take(&mut self.samples);
        for x in s {
            self.send('S', &x);
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.cnt.get_mut(k) {
            *x += n
        } else {
            self.cnt.insert(k.into(), n);
        }
    }
    /// record a distinct state
    pub fn state(&mut self, h: u64) -> bool {
        let h = h | 1;
        let mut i = mix(h, 3) as usize % TAB;
        for _ in 0..64 {
            match self.sh.tab[i].compare_exchange(0, h, SeqCst, SeqCst) {
                Ok(_) => {
                    self.sh.nstates.fetch_add(1, SeqCst);
                    return true;
                }
                Err(x) if x == h => return false,
                _ => i = (i + 1) % TAB,
            }
        }
        false
    }
    pub fn beat(&self) {
        self.sh.hb[self.id].fetch_add(1, SeqCst);
    }
    pub fn out_of_time(&self) -> bool {
        if Instant::now() > self.deadline {
            self.sh.incomplete.store(1, SeqCst);
            return true;
        }
        self.sh.stop.load(SeqCst) != 0
    }
    pub fn incomplete(&self) {
        self.sh.incomplete.store(1, SeqCst);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let x = s();
            self.samples.push(x);
        }
    }
    /// a fresh empty directory, reused between calls
    pub fn dir(&mut self, n: usize) -> String {
        let d = format!("{}/{}", self.base, n);
        std::fs::create_dir_all(&d).unwrap();
        wipe(&d);
        d
    }
    pub fn keep_dir(&mut self, n: usize) -> String {
        format!("{}/{}", self.base, n)
    }
    pub fn session<R: Send>(&mut self, cfg: Cfg, body: impl FnOnce() -> R + Send) -> (R, Out) {
        self.beat();
        self.add("executions", 1);
        self.ndir += 1;
        let (r, o) = session(cfg, body);
        self.add("steps", o.steps);
        if self.leak_at.is_none() && crate::leak::pending() {
            self.leak_at = Some(self.what.clone());
        }
        if o.leaked > 0 {
            mcrt::rt::fatal("stuck-threads", &format!("{} background threads never finished after the store was dropped: {}", o.leaked, mcrt::rt::rt().describe_threads()));
        }
        (r, o)
    }
    /// Report a violation; a listed known finding is noted and execution continues.
    pub fn check(&mut self, v: Result<(), Viol>) -> Result<(), Viol> {
        if let Err(v) = v {
            if let Some((_, d)) = self.known.iter().find(|k| k.0 == v.sig) {
                let d = d.clone();
                self.add("known", 1);
                self.send('K', &format!("{}\x1f{}", v.sig, d));
                return Ok(());
            }
            return Err(v);
        }
        Ok(())
    }
}

fn worker(id: usize, fd: i32, sh: &'static Shared, units: &[Unit], tier: Tier, deadline: Instant, only: Option<u64>, known: Vec<(String, String)>, root: &str, verbose: bool) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        // one core per worker: handing the baton over is then a cheap local switch
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        libc::CPU_SET(id % n, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
    let base = format!("{root}/mc{}", std::process::id());
    std::fs::create_dir_all(&base).unwrap();
    let mut w = Wk { id, base: base.clone(), tier, deadline, sh, cnt: Default::default(), known, samples: vec![], out: fd, unit: 0, ndir: 0, verbose, what: String::new(), leak_at: None };
    unsafe {
        CUR = &mut w;
        mcrt::rt::FATAL = Some(on_fatal);
    }
    mcrt::rt::init();
    loop {
        let u = match only {
            Some(u) => u,
            None => {
                if sh.stop.load(SeqCst) != 0 {
                    break;
                }
                let u = sh.next.fetch_add(1, SeqCst);
                if u >= units.len() as u64 {
                    break;
                }
                if Instant::now() > deadline {
                    sh.incomplete.store(1, SeqCst);
                    break;
                }
                u
            }
        };
        w.unit = u;
        sh.unit[id].store(u + 1, SeqCst);
        w.beat();
        let r = (units[u as usize].run)(&mut w);
        let r = w.check(r);
        w.add("units", 1);
        if let Err(v) = r {
            let m = format!("{}\x1f{}\x1f{}", u, v.sig, v.msg);
            w.send('V', &m);
            break;
        }
        if only.is_some() {
            break;
        }
    }
    sh.unit[id].store(0, SeqCst);
    w.flush_counters();
    let _ = std::fs::remove_dir_all(&base);
    unsafe { libc::_exit(0) }
}

struct Child {
    pid: i32,
    fd: i32,
    id: usize,
    buf: Vec<u8>,
    hb: u64,
    t: Instant,
    rep: bool,
}

fn map_shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}

pub struct Spec {
    pub id: &'static str,
    pub units: fn(Tier) -> Vec<Unit>,
    /// wall-clock budget in seconds (quick, thorough)
    pub budget: (u64, u64),
}

pub struct Known {
    pub list: Vec<(String, String)>,
}
pub fn load_known(verif: &str, id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{verif}/known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let (p, s, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == format!("property={id}") {
                    if let Some(s) = s.strip_prefix("sig=") {
                        v.push((s.to_string(), d.to_string()));
                    }
                }
            }
        }
    }
    v
}

/// run units; returns (violation, counters, ...)
pub struct Outcome {
    pub viols: Vec<(u64, String, String)>,
    pub known: BTreeMap<String, String>,
    pub cnt: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub states: u64,
    pub complete: bool,
    pub unconfirmed: Vec<String>,
}

fn spawn(id: usize, sh: &'static Shared, units: &[Unit], tier: Tier, deadline: Instant, only: Option<u64>, known: &[(String, String)], root: &str, verbose: bool) -> Child {
    unsafe {
        let mut p = [0i32; 2];
        assert!(libc::pipe(p.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(p[0]);
            worker(id, p[1], sh, units, tier, deadline, only, known.to_vec(), root, verbose);
        }
        libc::close(p[1]);
        libc::fcntl(p[0], libc::F_SETFL, libc::O_NONBLOCK);
        Child { pid, fd: p[0], id, buf: vec![], hb: 0, t: Instant::now(), rep: false }
    }
}

fn drain(c: &mut Child) -> Vec<String> {
    let mut b = [0u8; 65536];
    loop {
        let k = unsafe { libc::read(c.fd, b.as_mut_ptr() as *mut _, b.len()) };
        if k <= 0 {
            break;
        }
        c.buf.extend_from_slice(&b[..k as usize]);
    }
    let mut v = vec![];
    while let Some(i) = c.buf.iter().position(|x| *x == 0x1e) {
        v.push(String::from_utf8_lossy(&c.buf[..i]).to_string());
        c.buf.drain(..=i);
    }
    v
}

const HANG: u64 = 90;

/// Supervise a set of workers until all are done.
fn supervise(mut kids: Vec<Child>, sh: &'static Shared, respawn: &dyn Fn(usize) -> Option<Child>, out: &mut Outcome, raw: &mut Vec<(u64, String, String)>, root: &str) {
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(3));
        let mut i = 0;
        while i < kids.len() {
            let mut status = 0;
            let done = unsafe { libc::waitpid(kids[i].pid, &mut status, libc::WNOHANG) } == kids[i].pid;
            for m in drain(&mut kids[i]) {
                let (t, body) = m.split_at(1);
                let f: Vec<&str> = body.split('\x1f').collect();
                match t {
                    "C" => *out.cnt.entry(f[0].into()).or_insert(0) += f[1].parse::<u64>().unwrap_or(0),
                    "S" => out.samples.push(body.into()),
                    "K" => {
                        out.known.insert(f[0].into(), f[1].into());
                    }
                    "V" => {
                        kids[i].rep = true;
                        raw.push((f[0].parse().unwrap_or(0), f[1].into(), f[2].into()));
                        sh.stop.store(1, SeqCst);
                    }
                    "N" => {
                        kids[i].rep = true;
                        out.unconfirmed.push(format!("unit {}: nondeterminism {}", f[0], f[2]));
                        out.complete = false;
                    }
                    _ => {}
                }
            }
            if done {
                let id = kids[i].id;
                let cur = sh.unit[id].load(SeqCst);
                let _ = std::fs::remove_dir_all(format!("{root}/mc{}", kids[i].pid));
                let sig = libc::WIFSIGNALED(status);
                let code = if libc::WIFEXITED(status) { libc::WEXITSTATUS(status) } else { 0 };
                if (sig || code != 0) && !kids[i].rep && cur > 0 {
                    let what = if sig { format!("signal {}", libc::WTERMSIG(status)) } else { format!("exit code {code}") };
                    if sig && libc::WTERMSIG(status) == libc::SIGKILL {
                        // killed from outside (memory pressure): not evidence about the code
                        out.unconfirmed.push(format!("unit {}: worker killed", cur - 1));
                        out.complete = false;
                    } else if code == 70 {
                        out.unconfirmed.push(format!("unit {}: harness error", cur - 1));
                        out.complete = false;
                    } else {
                        raw.push((cur - 1, "process-died".into(), format!("the process died with {what}")));
                        sh.stop.store(1, SeqCst);
                    }
                }
                unsafe { libc::close(kids[i].fd) };
                let k = kids.remove(i);
                if (sig || code != 0) && sh.stop.load(SeqCst) == 0 {
                    if let Some(c) = respawn(k.id) {
                        kids.push(c);
                    }
                }
                continue;
            }
            // watchdog
            let hb = sh.hb[kids[i].id].load(SeqCst);
            if hb != kids[i].hb {
                kids[i].hb = hb;
                kids[i].t = Instant::now();
            } else if kids[i].t.elapsed() > Duration::from_secs(HANG) {
                let cur = sh.unit[kids[i].id].load(SeqCst);
                if !kids[i].rep && cur > 0 {
                    raw.push((cur - 1, "hang".into(), format!("no progress for {HANG} s in one execution")));
                    sh.stop.store(1, SeqCst);
                }
                kids[i].rep = true;
                unsafe { libc::kill(kids[i].pid, libc::SIGKILL) };
                kids[i].t = Instant::now();
            }
            i += 1;
        }
    }
}

pub fn run_units(units: &[Unit], tier: Tier, budget: u64, known: &[(String, String)], only: Option<u64>, verbose: bool) -> Outcome {
    let root = scratch_root();
    let sh = map_shared();
    let deadline = Instant::now() + Duration::from_secs(budget);
    let mut out = Outcome { viols: vec![], known: Default::default(), cnt: Default::default(), samples: vec![], states: 0, complete: true, unconfirmed: vec![] };
    let mut raw = vec![];
    let far = Instant::now() + Duration::from_secs(100_000);
    if let Some(u) = only {
        let k = vec![spawn(0, sh, units, tier, far, Some(u), known, &root, verbose)];
        supervise(k, sh, &|_| None, &mut out, &mut raw, &root);
    } else {
        let nw = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) }.clamp(1, NW as i64) as usize;
        let kids = (0..nw.min(units.len().max(1))).map(|i| spawn(i, sh, units, tier, deadline, None, known, &root, verbose)).collect();
        supervise(kids, sh, &|i| Some(spawn(i, sh, units, tier, deadline, None, known, &root, verbose)), &mut out, &mut raw, &root);
    }
    out.states = sh.nstates.load(SeqCst);
    if sh.incomplete.load(SeqCst) != 0 {
        out.complete = false;
    }
    let bytes = std::mem::size_of::<Shared>();
    // confirm each candidate in a fresh process
    raw.sort();
    raw.dedup_by(|a, b| a.0 == b.0);
    for (u, sig, msg) in raw.into_iter().take(4) {
        if only.is_some() {
            out.viols.push((u, sig, msg));
            continue;
        }
        let mut ok = None;
        for _ in 0..2 {
            let sh2 = map_shared();
            let mut o2 = Outcome { viols: vec![], known: Default::default(), cnt: Default::default(), samples: vec![], states: 0, complete: true, unconfirmed: vec![] };
            let mut r2 = vec![];
            let k = vec![spawn(0, sh2, units, tier, far, Some(u), known, &root, false)];
            supervise(k, sh2, &|_| None, &mut o2, &mut r2, &root);
            unsafe { libc::munmap(sh2 as *const _ as *mut _, bytes) };
            if let Some(x) = r2.pop() {
                ok = Some(x);
                break;
            }
        }
        match ok {
            Some((_, s2, m2)) => out.viols.push((u, s2, m2)),
            None => out.unconfirmed.push(format!("unit {u}: {sig}: {msg} (not reproduced)")),
        }
    }
    unsafe { libc::munmap(sh as *const _ as *mut _, bytes) };
    out
}

pub fn main_check(spec: &Spec, tier: Tier, verif: &str) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let units = (spec.units)(tier);
    let known = load_known(verif, spec.id);
    let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(spec.budget.0, spec.budget.1));
    let o = run_units(&units, tier, budget, &known, None, false);
    for (s, d) in &o.known {
        println!("KNOWN-FINDING: property={} {} [{}]", spec.id, d, s);
    }
    let mut rc = 0;
    let _ = std::fs::create_dir_all(format!("{verif}/evidence/replay"));
    for (u, sig, msg) in &o.viols {
        let path = format!("{verif}/evidence/replay/{}-{}.json", spec.id, u);
        let body = format!(
            "{{\"property\":{},\"tier\":{},\"unit\":{},\"label\":{},\"sig\":{},\"what\":{}}}\n",
            js(spec.id),
            js(tier.pick("quick", "thorough")),
            u,
            js(&units[*u as usize].label),
            js(sig),
            js(msg)
        );
        let _ = std::fs::write(&path, body);
        println!("violation in unit {} [{}] ({}): {}", u, units[*u as usize].label, sig, msg);
        println!("VIOLATION property={} replay={}", spec.id, path);
        rc = 1;
    }
    for x in o.unconfirmed.iter().take(5) {
        println!("note: {x}");
    }
    let exhaustive = o.complete && o.viols.is_empty();
    let ex = *o.cnt.get("executions").unwrap_or(&0);
    let mut samples = o.samples.clone();
    samples.truncate(6);
    if samples.is_empty() {
        samples = units.iter().take(3).map(|u| u.label.clone()).collect();
    }
    let mut extra = String::new();
    for (k, v) in &o.cnt {
        if k == "executions" || k == "steps" {
            continue;
        }
        extra += &format!(",{}:{}", js(k), v);
    }
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"total_units\":{},\"exhaustive\":{},\"rule\":{},\"samples\":[{}]{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        js(spec.id),
        js(tier.pick("quick", "thorough")),
        seed,
        o.states,
        o.cnt.get("steps").unwrap_or(&0),
        ex,
        units.len(),
        exhaustive,
        js(crate::rules::of(spec.id).0),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        extra,
        crate::rules::of(spec.id).1.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        o.viols.len()
    );
    let _ = std::fs::write(format!("{verif}/evidence/{}.json", spec.id), ev);
    println!(
        "{} {}: {} units, {} executions, {} states, {} steps, exhaustive={} {:.1}s {:?}",
        spec.id,
        tier.pick("quick", "thorough"),
        o.cnt.get("units").unwrap_or(&0),
        ex,
        o.states,
        o.cnt.get("steps").unwrap_or(&0),
        exhaustive,
        t0.elapsed().as_secs_f64(),
        o.cnt
    );
    rc
}

// ------------------------------------------------------------------ helpers shared by engines

/// Run one op as code under test, catching panics; the result lives outside the arena.
pub fn ex(db: &drv::Db, op: &Op, idxs: &[usize]) -> Res {
    let r = user(|| {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drv::exec(db, op, idxs))) {
            Ok(r) => r,
            Err(e) => {
                let m = e
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                Res::Panic(m)
            }
        }
    });
    r.clone()
}

pub fn open(dir: &str, cfg: &candystore::Config) -> Result<drv::Db, String> {
    let r = user(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drv::open(dir, cfg))));
    if !matches!(r, Ok(Ok(_))) {
        crate::leak::closed("failing to open it");
    }
    match r {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => {
            let e2 = e.clone();
            Err(format!("open failed: {e2:?}"))
        }
        Err(e) => {
            let m = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            Err(format!("open panicked: {m}"))
        }
    }
}
pub fn close(db: drv::Db) {
    user(|| drop(db));
    crate::leak::closed("dropping the store");
}
/// Let background work finish.
pub fn quiesce() {
    mcrt::rt::quiesce();
    crate::leak::at_rest();
}

pub fn obs(db: &drv::Db, uni: &Uni, exact: bool, whole: bool) -> Result<Obs, String> {
    model::observe(&mut |op| ex(db, op, &[]), uni, exact, whole)
}

pub fn hash_m(m: &M) -> u64 {
    use std::hash::{Hash, Hasher};
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    m.hash(&mut h);
    h.finish()
}
pub fn hash_s(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

#[allow(dead_code)]
pub fn read_all(p: &str) -> Vec<u8> {
    let mut v = vec![];
    if let Ok(mut f) = std::fs::File::open(p) {
        let _ = f.read_to_end(&mut v);
    }
    v
}
#[allow(dead_code)]
pub fn say(s: &str) {
    let _ = std::io::stderr().write_all(s.as_bytes());
}
