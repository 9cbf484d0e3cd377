//! A directory is used by one store at a time: interleavings of two users in one process under the
//! controlled scheduler, and all bounded command sequences of users in separate processes.
use crate::fw::*;
use crate::model::{short, Uni, M};
use crate::util::*;
use candystore::Config;
use drv::{Op, V};
use mcrt::explore::explore;
use mcrt::image::Image;
use mcrt::rt::Cfg;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

// ---------------------------------------------------------------- separate processes
fn small() -> Config {
    // entries are soon split and compacted
    cfg(100, 20)
}

/// The child process: commands on stdin, one answer each.
pub fn child() -> i32 {
    // the managed threads need a scheduler
    let (r, _) = mcrt::rt::session(Cfg { dir: "/nowhere".into(), max_steps: u64::MAX, ..Default::default() }, commands);
    r
}
fn commands() -> i32 {
    let mut db: Option<drv::Db> = None;
    let inp = std::io::stdin();
    let mut out = std::io::stdout();
    for l in inp.lock().lines() {
        let Ok(l) = l else { break };
        let f: Vec<&str> = l.split(' ').collect();
        let ans = match f[0] {
            "open" => match open(f[1], &small()) {
                Ok(d) if db.is_none() => {
                    db = Some(d);
                    "ok".to_string()
                }
                Ok(_) => "ok second".into(),
                Err(e) => format!("err {}", e.replace('\n', " ")),
            },
            "close" => {
                if let Some(d) = db.take() {
                    close(d)
                }
                "ok".into()
            }
            "set" => match ex(db.as_ref().unwrap(), &Op::Set(f[1].into(), f[2].into()), &[]) {
                drv::Res::Created(_) | drv::Res::Prev(_) => "ok".into(),
                r => format!("err {}", pres(&r)),
            },
            "clear" => match ex(db.as_ref().unwrap(), &Op::Clear, &[]) {
                drv::Res::Unit => "ok".into(),
                r => format!("err {}", pres(&r)),
            },
            _ => "err ?".into(),
        };
        if writeln!(out, "{ans}").and_then(|_| out.flush()).is_err() {
            break;
        }
    }
    0
}

struct Kid {
    c: Child,
    i: std::process::ChildStdin,
    o: BufReader<std::process::ChildStdout>,
}
impl Kid {
    fn new() -> Kid {
        let mut c = Command::new(std::env::current_exe().unwrap()).arg("lockchild").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        Kid { c, i, o }
    }
    fn ask(&mut self, s: &str) -> String {
        let mut l = String::new();
        let r = writeln!(self.i, "{s}").and_then(|_| self.i.flush()).and_then(|_| self.o.read_line(&mut l));
        match r {
            Ok(n) if n > 0 => l.trim_end().to_string(),
            _ => "err the process died".into(),
        }
    }
    fn kill(&mut self) {
        let _ = self.c.kill();
        let _ = self.c.wait();
        *self = Kid::new();
    }
}
impl Drop for Kid {
    fn drop(&mut self) {
        let _ = self.c.kill();
        let _ = self.c.wait();
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
    Open,
    /// through another name of the directory
    Alias,
    Close,
    Kill,
    Set,
    Clear,
    /// with a shard file that cannot be opened, which is put right afterwards
    Bad,
}
use A::*;

struct Sm {
    holder: Option<usize>,
    m: M,
    n: u32,
}

fn enabled(s: &Option<usize>, x: usize, a: A) -> bool {
    match a {
        Open | Alias => true,
        Close | Kill | Set | Clear => *s == Some(x),
        Bad => s.is_none(),
    }
}
fn after(s: &Option<usize>, x: usize, a: A) -> Option<usize> {
    match a {
        Open | Alias => s.or(Some(x)),
        Close | Kill => None,
        _ => *s,
    }
}

fn lockbytes(dir: &str) -> Vec<u8> {
    read_all(&format!("{dir}/.lock"))
}

fn run_seq(w: &mut Wk, kids: &mut [Kid], seq: &[(usize, A)]) -> Result<(), String> {
    let dir = w.dir(0);
    let alias = format!("{dir}.alias");
    let _ = std::os::unix::fs::symlink(&dir, &alias);
    let mut s = Sm { holder: None, m: M::default(), n: 0 };
    let show = |i: usize| seq[..=i].iter().map(|(x, a)| format!("P{}:{a:?}", x + 1)).collect::<Vec<_>>().join(" ");
    for (i, (x, a)) in seq.iter().enumerate() {
        w.beat();
        let e = |m: String| Err(format!("{} => {m}", show(i)));
        match a {
            Open | Alias => {
                let before = s.holder.is_some().then(|| (Image::from_dir(&dir, 0).hash(), lockbytes(&dir)));
                let r = kids[*x].ask(&format!("open {}", if *a == Open { &dir } else { &alias }));
                if let Some(b) = before {
                    if !r.starts_with("err open failed") {
                        return e(format!("opened a directory in use by P{}: {r}", s.holder.unwrap() + 1));
                    }
                    if b != (Image::from_dir(&dir, 0).hash(), lockbytes(&dir)) {
                        return e("the failed attempt to open changed the directory".into());
                    }
                } else if r != "ok" {
                    return e(format!("the directory isn't in use but opening it failed: {r}"));
                } else {
                    s.holder = Some(*x);
                }
            }
            Close => {
                let r = kids[*x].ask("close");
                if r != "ok" {
                    return e(r);
                }
                s.holder = None;
            }
            Kill => {
                kids[*x].kill();
                s.holder = None;
            }
            Set => {
                for _ in 0..2 {
                    s.n += 1;
                    let (k, v) = (format!("k{}", s.n % 3), format!("{:020}", s.n));
                    let r = kids[*x].ask(&format!("set {k} {v}"));
                    if r != "ok" {
                        return e(r);
                    }
                    s.m.kv.insert(k.into(), v.into());
                }
            }
            Clear => {
                let r = kids[*x].ask("clear");
                if r != "ok" {
                    return e(r);
                }
                s.m = M::default();
            }
            Bad => {
                let bad = format!("{dir}/shard_0000-10000");
                let had = std::fs::read(&bad).ok();
                let mut all: Vec<_> = std::fs::read_dir(&dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.file_name().unwrap().to_string_lossy().starts_with("shard_")).collect();
                all.sort();
                // break one of the existing files, or add one
                let (path, old) = match all.first() {
                    Some(p) => (p.to_string_lossy().to_string(), std::fs::read(p).ok()),
                    None => (bad, had),
                };
                let mut b = old.clone().unwrap_or_else(|| vec![0; 64]);
                b[..8].copy_from_slice(b"notCandy");
                std::fs::write(&path, &b).unwrap();
                let r = kids[*x].ask(&format!("open {dir}"));
                if r == "ok" {
                    return e("a directory with a foreign shard file was opened".into());
                }
                if std::fs::read(&path).unwrap() != b {
                    return e("the failed attempt to open changed the foreign file".into());
                }
                match old {
                    Some(o) => std::fs::write(&path, o).unwrap(),
                    None => std::fs::remove_file(&path).unwrap(),
                }
            }
        }
    }
    if let Some(x) = s.holder {
        kids[x].ask("close");
    }
    let uni = Uni { kv: (0..3).map(|i| format!("k{i}").into_bytes()).collect::<std::collections::BTreeSet<V>>(), ..Default::default() };
    let d2 = dir.clone();
    let (r, _) = w.session(Cfg { dir: dir.clone(), ..Default::default() }, || {
        let db = open(&d2, &small())?;
        let o = obs(&db, &uni, false, true);
        close(db);
        o
    });
    let _ = std::fs::remove_file(&alias);
    let o = r.map_err(|e| format!("{} => finally {e}", show(seq.len() - 1)))?;
    if !o.m.same(&s.m) {
        return Err(format!("{} => finally contents {} expected {}", show(seq.len() - 1), short(&o.m), short(&s.m)));
    }
    w.state(hash_s(&show(seq.len() - 1)));
    Ok(())
}

fn sequences(actors: usize, acts: &[A], depth: usize) -> Vec<Vec<(usize, A)>> {
    fn rec(out: &mut Vec<Vec<(usize, A)>>, cur: &mut Vec<(usize, A)>, h: Option<usize>, used: usize, actors: usize, acts: &[A], left: usize) {
        if left == 0 {
            out.push(cur.clone());
            return;
        }
        // processes are interchangeable: a new one is the next
        for x in 0..actors.min(used + 1) {
            for a in acts {
                if enabled(&h, x, *a) {
                    cur.push((x, *a));
                    rec(out, cur, after(&h, x, *a), used.max(x + 1), actors, acts, left - 1);
                    cur.pop();
                }
            }
        }
    }
    let mut out = vec![];
    rec(&mut out, &mut vec![], None, 0, actors, acts, depth);
    out
}

// ---------------------------------------------------------------- one process
#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Open,
    Close,
    Work,
    Clear,
    /// opening that may fail half way, since files of another version aren't to be cleared
    Bad,
}

static CLOCK: AtomicU64 = AtomicU64::new(0);
static HOLD: AtomicI64 = AtomicI64::new(0);

#[derive(Clone, Debug)]
struct Span {
    t: usize,
    call: u64,
    ret: u64,
    /// when the store was closed
    end: u64,
    ok: Result<(), String>,
    bad: bool,
}

fn thread(t: usize, dir: String, c: Config, script: Vec<S>) -> (Vec<Span>, Vec<String>, u32) {
    let mut db: Option<drv::Db> = None;
    let mut spans: Vec<Span> = vec![];
    let mut errs = vec![];
    let mut work = 0;
    for s in script {
        match s {
            S::Open | S::Bad => {
                if db.is_some() {
                    continue;
                }
                let mut c = c.clone();
                // the lock is taken before the shards are loaded
                c.clear_on_unsupported_version = s != S::Bad;
                mcrt::rt::op_call();
                let call = CLOCK.fetch_add(1, SeqCst);
                let r = open(&dir, &c);
                if r.is_ok() && HOLD.fetch_add(1, SeqCst) != 0 {
                    errs.push(format!("T{} opened a directory in use", t + 1));
                }
                let ret = CLOCK.fetch_add(1, SeqCst);
                mcrt::rt::op_ret();
                spans.push(Span { t, call, ret, end: if r.is_ok() { u64::MAX } else { ret }, ok: r.as_ref().map(|_| ()).map_err(|e| e.clone()), bad: s == S::Bad });
                db = r.ok();
            }
            S::Close => {
                if let Some(d) = db.take() {
                    HOLD.fetch_sub(1, SeqCst);
                    mcrt::rt::op_call();
                    close(d);
                    spans.last_mut().unwrap().end = CLOCK.fetch_add(1, SeqCst);
                    mcrt::rt::op_ret();
                }
            }
            S::Work => {
                if let Some(d) = &db {
                    for i in 0..3u8 {
                        let r = ex(d, &Op::Set(vec![b'k', b'0' + i], val(b'a' + t as u8, 20)), &[]);
                        if !matches!(r, drv::Res::Created(_) | drv::Res::Prev(_)) {
                            errs.push(format!("T{} holds the store, but a set returned {}", t + 1, pres(&r)));
                        }
                    }
                    work = 1;
                }
            }
            S::Clear => {
                if let Some(d) = &db {
                    let r = ex(d, &Op::Clear, &[]);
                    if r != drv::Res::Unit {
                        errs.push(format!("T{} holds the store, but clearing it returned {}", t + 1, pres(&r)));
                    }
                    work = 2;
                }
            }
        }
    }
    if let Some(d) = db.take() {
        HOLD.fetch_sub(1, SeqCst);
        mcrt::rt::op_call();
        close(d);
        spans.last_mut().unwrap().end = CLOCK.fetch_add(1, SeqCst);
        mcrt::rt::op_ret();
    }
    (spans, errs, work)
}

fn one(dir: &str, c: &Config, init: &[Op], foreign: bool, scripts: &[Vec<S>], uni: &Uni) -> Result<String, String> {
    let db = open(dir, c)?;
    let mut m = M::default();
    for op in init {
        let r = ex(&db, op, &[]);
        if !m.accept(op, &r, &[]) {
            return Err(format!("setup {} returned {}", pop(op), pres(&r)));
        }
    }
    close(db);
    if foreign {
        let f = std::fs::OpenOptions::new().write(true).open(format!("{dir}/shard_0000-10000")).map_err(|e| e.to_string())?;
        std::os::unix::fs::FileExt::write_all_at(&f, &[1], 8).map_err(|e| e.to_string())?;
        m = M::default();
    }
    CLOCK.store(1, SeqCst);
    HOLD.store(0, SeqCst);
    mcrt::rt::par_begin();
    let hs: Vec<_> = scripts
        .iter()
        .enumerate()
        .map(|(t, s)| {
            let (d, c, s) = (dir.to_string(), c.clone(), s.clone());
            std::thread::spawn(move || thread(t, d, c, s))
        })
        .collect();
    let mut spans = vec![];
    let mut errs = vec![];
    let mut work = vec![];
    for h in hs {
        let (s, e, k) = h.join().expect("client thread");
        spans.extend(s);
        errs.extend(e);
        work.push(k);
    }
    mcrt::rt::par_end();
    mcrt::rt::quiesce();
    if let Some(e) = errs.first() {
        return Err(format!("{e}; {spans:?}"));
    }
    for a in &spans {
        if let Err(e) = &a.ok {
            let overlaps = spans.iter().any(|b| (b.t, b.call) != (a.t, a.call) && b.call < a.ret && a.call < b.end);
            if !overlaps && !a.bad {
                return Err(format!("T{} failed to open a directory that no one uses: {e}; {spans:?}", a.t + 1));
            }
        }
    }
    let mut c = c.clone();
    c.clear_on_unsupported_version = true;
    let db = open(dir, &c).map_err(|e| format!("once everyone was done: {e}"))?;
    let o = obs(&db, uni, false, true);
    close(db);
    let o = o.map_err(|e| format!("once everyone was done: {e}"))?;
    // each work either took place as a whole or not at all
    let mut ok = vec![];
    for t in 0..scripts.len() {
        if work[t] == 1 {
            let mut x = m.clone();
            for i in 0..3u8 {
                x.kv.insert(vec![b'k', b'0' + i], val(b'a' + t as u8, 20));
            }
            ok.push(x);
        } else if work[t] == 2 {
            ok.push(M::default());
        }
    }
    // later work adds to the effects of earlier work
    let mut grown = ok.clone();
    for t in 0..scripts.len() {
        if work[t] == 1 {
            let mut x = M::default();
            for i in 0..3u8 {
                x.kv.insert(vec![b'k', b'0' + i], val(b'a' + t as u8, 20));
            }
            grown.push(x);
        }
    }
    if work.iter().all(|x| *x == 0) {
        grown.push(m);
    }
    if !grown.iter().any(|x| x.same(&o.m)) {
        return Err(format!("once everyone was done the contents are {}, which no user has left; {spans:?}", short(&o.m)));
    }
    Ok(format!("{:?}", spans.iter().map(|s| (s.t, s.ok.is_ok())).collect::<Vec<_>>()))
}

fn sched_units(t: Tier) -> Vec<Unit> {
    use S::*;
    let q = t == Tier::Quick;
    let mut us = vec![];
    let kv = |i: u8| Op::Set(vec![b'k', b'0' + i], val(b'x', 20));
    let split = cfg(80, BIG);
    let comp = cfg(BIG, 20);
    let states: Vec<(&str, Config, Vec<Op>)> = vec![
        ("foreign", cfg(BIG, BIG), vec![kv(0)]),
        ("new", cfg(BIG, BIG), vec![]),
        ("split", split, vec![kv(0), kv(1)]),
        ("compact", comp, vec![kv(0), kv(1), kv(2), Op::Set(vec![b'k', b'0'], val(b'y', 20))]),
    ];
    let scripts: Vec<Vec<S>> = vec![vec![Open], vec![Open, Work], vec![Open, Clear], vec![Open, Work, Close, Open, Work], vec![Open, Close, Open, Clear], vec![Bad, Open, Work]];
    for (n, c, init) in states {
        let mut progs = crate::conc::combos_of(&scripts, 2);
        if !q {
            progs.extend(crate::conc::combos_of(&scripts[..3], 3));
        } else {
            progs.push(vec![scripts[1].clone(), scripts[0].clone(), scripts[1].clone()]);
        }
        for p in progs {
            let (n, c, init) = (n.to_string(), c.clone(), init.clone());
            let foreign = n == "foreign";
            us.push(unit(format!("every schedule of {p:?} on a {n} store"), move |w| {
                let what = format!("[{}] init: {}{} threads: {p:?}", pcfg(&c), pops(&init), if foreign { " (then turned into another version)" } else { "" });
                w.what = what.clone();
                w.sample(|| format!("every schedule of {what}"));
                let uni = Uni { kv: (0..3u8).map(|i| vec![b'k', b'0' + i]).collect(), ..Default::default() };
                let dl = w.deadline;
                let (st, found) = explore(if q && p.iter().map(|s| s.len()).sum::<usize>() > 3 { 1 } else { t.pick(2, 3) }, t.pick(4, 8), t.pick(20_000, 200_000), Some(dl), || {
                    let dir = w.dir(0);
                    let d2 = dir.clone();
                    let (r, out) = w.session(Cfg { dir, track: true, max_steps: 3_000_000, ..Default::default() }, || one(&d2, &c, &init, foreign, &p, &uni));
                    match r {
                        Err(e) => Some(e),
                        Ok(_) if !out.panics.is_empty() => Some(format!("panic in a background thread: {:?}", out.panics)),
                        Ok(s) => {
                            w.state(hash_s(&format!("{what}{s}")));
                            None
                        }
                    }
                });
                w.add("schedules", st.execs);
                w.add("schedule_states", st.states);
                if let Some(f) = found {
                    return w.check(viol(format!("lock-{n}:{:016x}", hash_s(&what)), format!("{what} => {}", f.v)));
                }
                if !st.complete {
                    w.incomplete();
                }
                Ok(())
            }));
        }
    }
    us
}

pub fn c22(t: Tier) -> Vec<Unit> {
    let mut us = sched_units(t);
    for (actors, acts, depth) in [(2, vec![Open, Alias, Close, Kill, Set, Clear, Bad], t.pick(4, 6)), (2, vec![Open, Close, Kill, Set], t.pick(6, 8)), (3, vec![Open, Close, Kill], t.pick(5, 7))] {
        let all = sequences(actors, &acts, depth);
        let n = all.len();
        let chunk = (n / 64).clamp(20, 400);
        for (i, c) in all.chunks(chunk).enumerate() {
            let c = c.to_vec();
            us.push(unit(format!("{actors} processes, sequences {}.. of {n} of length {depth}", i * chunk), move |w| {
                let mut kids: Vec<Kid> = (0..actors).map(|_| Kid::new()).collect();
                w.sample(|| format!("{:?} by separate processes", c[c.len() - 1]));
                for s in &c {
                    if w.out_of_time() {
                        break;
                    }
                    w.what = format!("{s:?}");
                    w.add("process_sequences", 1);
                    if let Err(e) = run_seq(w, &mut kids, s) {
                        w.check(viol(format!("procs:{:016x}", hash_s(&e)), e))?;
                        kids = (0..actors).map(|_| Kid::new()).collect();
                    }
                }
                Ok(())
            }));
        }
    }
    us
}
