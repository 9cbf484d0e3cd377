//! All interleavings (up to a preemption bound) of small multi-threaded programs on the real store,
//! judged by linearizability against the reference model, race detection, termination, and optionally
//! a crash at every point of every interleaving.
use crate::crash;
use crate::fw::*;
use crate::model::{pushed, short, Uni, M};
use crate::util::*;
use candystore::Config;
use drv::{Op, Res};
use mcrt::explore::explore;
use mcrt::image::Image;
use mcrt::rt::{Cfg, Fault, FaultKind};
use mcrt::Ev;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone)]
pub struct KProg {
    pub name: String,
    pub cfg: Config,
    pub init: Vec<Op>,
    /// let background work started by `init` finish before the threads start
    pub settle: bool,
    pub threads: Vec<Vec<Op>>,
    pub bound: u32,
    /// a thread is preempted only at its first `visits` accesses to one object (0: no limit)
    pub visits: u32,
    /// results and final contents must be linearizable
    pub lin: bool,
    /// errors and panics are violations (otherwise only termination and races are judged)
    pub results: bool,
    pub race: bool,
    pub crash: bool,
    /// losing all unsynced data: 1: what was acknowledged before a flush began, 2: what was acknowledged survives
    pub durable: u8,
    /// the n-th sync fails (and all later ones)
    pub sync_fault: Option<(u64, bool)>,
    /// in turn, each file operation of each thread fails
    pub faults: bool,
    pub fault: Option<Fault>,
    pub max_execs: u64,
    pub post: Option<fn(&drv::Db, &M, &Config) -> Result<(), String>>,
}
impl KProg {
    pub fn new(name: &str, cfg: Config, init: Vec<Op>, threads: Vec<Vec<Op>>, bound: u32) -> KProg {
        KProg { name: name.into(), cfg, init, settle: true, threads, bound, visits: 6, lin: true, results: true, race: false, crash: false, durable: 0, sync_fault: None, faults: false, fault: None, max_execs: 30_000, post: None }
    }
    pub fn what(&self) -> String {
        format!(
            "[{}] init: {}{} threads: {}",
            pcfg(&self.cfg),
            pops(&self.init),
            match (self.settle, self.sync_fault) {
                _ if self.fault.is_some() => {
                    let f = self.fault.unwrap();
                    format!("{} (file operation {} of thread {} failing)", if self.settle { "" } else { " (background work pending)" }, f.at, f.thr.unwrap_or(0))
                }
                (true, None) => String::new(),
                (false, None) => " (background work pending)".into(),
                (_, Some((n, p))) => format!(" (sync {n} failing{})", if p { ", and all later ones" } else { "" }),
            },
            self.threads.iter().map(|t| pops(t)).collect::<Vec<_>>().join(" || ")
        )
    }
}

#[derive(Clone, Debug)]
pub struct Hop {
    pub t: usize,
    pub call: u64,
    pub ret: u64,
    pub op: Op,
    /// None: still running when the process died
    pub res: Option<Res>,
}

/// One atomic step to be ordered. Promoting a list item is a removal followed by an insertion.
struct Item<'a> {
    call: u64,
    ret: u64,
    op: std::borrow::Cow<'a, Op>,
    res: Option<&'a Res>,
    any: bool,
    after: Option<usize>,
}
fn items(h: &[Hop]) -> Vec<Item<'_>> {
    use std::borrow::Cow;
    let mut v = vec![];
    for o in h {
        match (&o.op, &o.res) {
            // judged by `iterations`
            (Op::Iter, _) => {}
            // judged by `seq_iterations`
            (Op::LIter(_) | Op::LIterB(_) | Op::QIter(_) | Op::QIterB(_), _) => {}
            (Op::LProm(l, k, x), Some(r)) => {
                v.push(Item { call: o.call, ret: o.ret, op: Cow::Owned(Op::LRemove(l.clone(), k.clone())), res: Some(r), any: true, after: None });
                let a = v.len() - 1;
                v.push(Item { call: o.call, ret: o.ret, op: Cow::Owned(Op::LSet(l.clone(), k.clone(), x.clone())), res: Some(r), any: false, after: Some(a) });
            }
            _ => v.push(Item { call: o.call, ret: o.ret, op: Cow::Borrowed(&o.op), res: o.res.as_ref(), any: false, after: None }),
        }
    }
    v
}

/// Is there an order of `h` that respects real time, explains all results and ends in `target`?
pub fn linearizable(h: &[Hop], start: &M, idxs: &[usize], target: Option<&M>) -> bool {
    orders(&items(h), start, idxs, target)
}
fn orders(its: &[Item], start: &M, idxs: &[usize], target: Option<&M>) -> bool {
    fn go(h: &[Item], done: u32, m: &M, idxs: &[usize], target: Option<&M>, seen: &mut std::collections::HashSet<(u32, u64)>) -> bool {
        let mut lim = u64::MAX;
        let mut all = true;
        for (i, o) in h.iter().enumerate() {
            if done & (1 << i) == 0 && o.res.is_some() {
                all = false;
                lim = lim.min(o.ret);
            }
        }
        if all && target.map_or(true, |t| m.same(t)) {
            return true;
        }
        if !seen.insert((done, hash_m(m))) {
            return false;
        }
        for (i, o) in h.iter().enumerate() {
            if done & (1 << i) != 0 || o.call > lim || o.after.map_or(false, |a| done & (1 << a) == 0) {
                continue;
            }
            match o.res {
                Some(_) if o.any => {
                    let mut m2 = m.clone();
                    m2.force(&o.op, idxs);
                    if go(h, done | 1 << i, &m2, idxs, target, seen) {
                        return true;
                    }
                }
                Some(r) => {
                    let mut m2 = m.clone();
                    if m2.accept(&o.op, r, idxs) && go(h, done | 1 << i, &m2, idxs, target, seen) {
                        return true;
                    }
                }
                None => {
                    for m2 in m.in_flight(&o.op, idxs) {
                        if go(h, done | 1 << i, &m2, idxs, target, seen) {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }
    go(its, 0, start, idxs, target, &mut Default::default())
}

/// An iteration that runs concurrently returns every key nobody touches, and only what was stored at some time.
fn iterations(p: &KProg, h: &[Hop], start: &M) -> Result<(), String> {
    let uni = Uni::of(p.threads.iter().flatten());
    for it in h.iter().filter(|o| o.op == Op::Iter) {
        let Some(Res::KVs(got)) = &it.res else { return Err(format!("iteration returned {}", it.res.as_ref().map_or("nothing".into(), pres))) };
        for kv in start.kv.iter().filter(|(k, _)| !uni.kv.contains(*k)) {
            if !got.iter().any(|(k, v)| (k, v) == kv) {
                return Err(format!("key {} was never touched but the iteration did not return it: {} ({})", String::from_utf8_lossy(kv.0), pres(&Res::KVs(got.clone())), phist(h)));
            }
        }
        for (k, v) in got {
            // stored before and not overwritten by an operation that ended before the iteration began, or
            // written by an operation that began before the iteration ended
            let over = h.iter().any(|o| o.ret < it.call && matches!(&o.op, Op::Set(a, b) if a == k && b != v) || o.ret < it.call && matches!((&o.op, &o.res), (Op::Remove(a), Some(Res::Opt(Some(_)))) if a == k));
            let before = start.kv.get(k) == Some(v) && !over;
            let written = h.iter().any(|o| {
                o.call < it.ret
                    && match (&o.op, &o.res) {
                        (Op::Set(a, b) | Op::Goc(a, b), _) | (Op::Replace(a, b, _), Some(Res::Prev(_))) => a == k && b == v,
                        _ => false,
                    }
            });
            if !before && !written {
                return Err(format!("the iteration returned {}={} which was not stored at any time while it ran ({})", String::from_utf8_lossy(k), String::from_utf8_lossy(v), phist(h)));
            }
        }
    }
    Ok(())
}

/// The same for iterations over one list or queue: what stays in it throughout is returned exactly once and in
/// order, and nothing that was not in it at any time meanwhile.
fn seq_iterations(h: &[Hop], start: &M) -> Result<(), String> {
    for it in h {
        let (name, list, fwd) = match &it.op {
            Op::LIter(l) => (l, true, true),
            Op::LIterB(l) => (l, true, false),
            Op::QIter(q) => (q, false, true),
            Op::QIterB(q) => (q, false, false),
            _ => continue,
        };
        type I = (usize, drv::V, drv::V);
        let got: Vec<I> = match &it.res {
            Some(Res::KVs(v)) => v.iter().map(|x| (0, x.0.clone(), x.1.clone())).collect(),
            Some(Res::IVs(v)) => v.iter().map(|x| (x.0, vec![], x.1.clone())).collect(),
            r => return Err(format!("iteration returned {}", r.as_ref().map_or("nothing".into(), pres))),
        };
        let first: Vec<I> = if list {
            start.lists.get(name).map_or(vec![], |v| v.iter().map(|x| (0, x.0.clone(), x.1.clone())).collect())
        } else {
            start.queues.get(name).map_or(vec![], |v| v.iter().map(|x| (x.0, vec![], x.1.clone())).collect())
        };
        // does `o` take this item out, or move it?
        let takes = |o: &Hop, x: &I| match (&o.op, &o.res) {
            (Op::Clear, _) => true,
            (Op::LDiscard(l) | Op::LCompact(l, _), _) => list && l == name,
            (Op::LProm(l, k, _), _) => list && l == name && *k == x.1,
            (Op::LRemove(l, k), Some(Res::Opt(Some(_)))) => list && l == name && *k == x.1,
            (Op::LPopH(l) | Op::LPopT(l), Some(Res::OptKV(Some(r)))) => list && l == name && r.0 == x.1,
            (Op::QDiscard(q), _) => !list && q == name,
            (Op::QPopH(q) | Op::QPopT(q) | Op::QRemove(q, _), Some(Res::Opt(Some(v)))) => !list && q == name && *v == x.2,
            (Op::QPopHI(q) | Op::QPopTI(q), Some(Res::OptIV(Some(r)))) => !list && q == name && r.0 == x.0 && r.1 == x.2,
            _ => false,
        };
        let gives = |o: &Hop, x: &I| match (&o.op, &o.res) {
            (Op::LSet(l, k, v) | Op::LProm(l, k, v) | Op::LGoc(l, k, v), _) | (Op::LReplace(l, k, v, _), Some(Res::Prev(_))) => list && l == name && *k == x.1 && *v == x.2,
            (Op::QPushH(q, v) | Op::QPushT(q, v), Some(Res::Num(i))) => !list && q == name && *v == x.2 && *i == x.0,
            (Op::QExt(q, vs), Some(Res::Range(a, _))) => !list && q == name && x.0.checked_sub(*a).and_then(|j| vs.get(j)) == Some(&x.2),
            _ => false,
        };
        let id = |x: &I| if list { (0, x.1.clone()) } else { (x.0, x.2.clone()) };
        let mut stay: Vec<_> = first.iter().filter(|x| !h.iter().any(|o| takes(o, x))).map(id).collect();
        if !fwd {
            stay.reverse();
        }
        let seen: Vec<_> = got.iter().map(id).filter(|x| stay.contains(x)).collect();
        let show = || it.res.as_ref().map_or(String::new(), pres);
        if seen != stay {
            return Err(format!("{} items were in it all the time, but {} returned {} ({})", stay.len(), pop(&it.op), show(), phist(h)));
        }
        for x in &got {
            let gone = h.iter().any(|o| o.ret < it.call && (takes(o, x) || matches!(&o.op, Op::LSet(l, k, v) if list && l == name && *k == x.1 && *v != x.2)));
            if !(first.contains(x) && !gone) && !h.iter().any(|o| o.call < it.ret && gives(o, x)) {
                return Err(format!("{} returned something that was not in it at any time meanwhile: {} ({})", pop(&it.op), show(), phist(h)));
            }
        }
    }
    Ok(())
}

static CLOCK: AtomicU64 = AtomicU64::new(0);

struct One {
    hist: Vec<Hop>,
    start: M,
    idxs: Vec<usize>,
    fin: Option<M>,
    /// file operations of each thread
    nfs: Vec<u64>,
}

fn phist(h: &[Hop]) -> String {
    let mut h = h.to_vec();
    h.sort_by_key(|o| o.call);
    h.iter()
        .map(|o| format!("T{}@{}-{} {} -> {}", o.t + 1, o.call, o.ret, pop(&o.op), o.res.as_ref().map_or("(running)".into(), pres)))
        .collect::<Vec<_>>()
        .join("; ")
}

fn run_once(dir: &str, p: &KProg, uni: &Uni) -> Result<One, String> {
    let db = Arc::new(open(dir, &p.cfg)?);
    let mut m = M::default();
    let mut idxs = vec![];
    for o in &p.init {
        if *o == Op::Quiesce {
            quiesce();
            continue;
        }
        let r = ex(&db, o, &idxs);
        pushed(o, &r, &mut idxs);
        if !m.accept(o, &r, &idxs) {
            let e = format!("setup {} returned {}", pop(o), pres(&r));
            close(Arc::try_unwrap(db).ok().unwrap());
            return Err(e);
        }
    }
    if p.settle {
        quiesce();
    }
    CLOCK.store(1, SeqCst);
    mcrt::rt::mark(9, 0);
    mcrt::rt::par_begin();
    let mut hs = vec![];
    let mut base = 0u32;
    for (t, ops) in p.threads.iter().enumerate() {
        let (db, ops, ix) = (db.clone(), ops.clone(), idxs.clone());
        let b0 = base;
        base += ops.len() as u32;
        hs.push(std::thread::spawn(move || {
            let mut v = vec![];
            for (i, op) in ops.iter().enumerate() {
                mcrt::rt::op_call();
                let call = CLOCK.fetch_add(1, SeqCst);
                mcrt::rt::mark(1, b0 + i as u32);
                let r = ex(&db, op, &ix);
                mcrt::rt::mark(2, b0 + i as u32);
                let ret = CLOCK.fetch_add(1, SeqCst);
                mcrt::rt::op_ret();
                v.push(Hop { t, call, ret, op: op.clone(), res: Some(r) });
            }
            drop(db);
            v
        }));
    }
    let mut hist = vec![];
    for h in hs {
        hist.extend(h.join().expect("client thread"));
    }
    mcrt::rt::par_end();
    let nfs: Vec<u64> = mcrt::rt::rt().thr.iter().map(|t| t.nfs).collect();
    if p.fault.is_some() {
        mcrt::rt::rt().cfg.fault = None;
    }
    let exact = p.lin && p.fault.is_none();
    mcrt::rt::mark(8, 0);
    let r = (|| {
        for h in hist.iter().filter(|_| p.results) {
            if let Some(Res::Panic(e)) = &h.res {
                return Err(format!("{} panicked: {e}", pop(&h.op)));
            }
            if let Some(Res::Err(e)) = &h.res {
                if mcrt::rt::rt().fault_hit.is_some() {
                    continue;
                }
                return Err(format!("{} failed: {e:?}", pop(&h.op)));
            }
        }
        for h in hist.iter_mut().filter(|h| p.results && matches!(h.res, Some(Res::Err(_)))) {
            // it may have taken effect or not
            h.res = None;
            h.ret = u64::MAX;
        }
        if !p.results {
            let _ = obs(&db, uni, false, false);
            quiesce();
            return Ok(M::default());
        }
        iterations(p, &hist, &m)?;
        seq_iterations(&hist, &m)?;
        let o = obs(&db, uni, exact, true)?;
        if p.lin && !linearizable(&hist, &m, &idxs, Some(&o.m)) {
            return Err(format!("not linearizable: from {} history {} ended with {}", short(&m), phist(&hist), short(&o.m)));
        }
        quiesce();
        let o2 = obs(&db, uni, exact, true)?;
        if o2.m != o.m {
            return Err(format!("contents changed from {} to {} while background work finished", short(&o.m), short(&o2.m)));
        }
        if let Some(f) = p.post {
            f(&db, &o.m, &p.cfg)?;
        }
        Ok(o.m)
    })();
    let db = Arc::try_unwrap(db).ok().expect("store still shared");
    close(db);
    let fm = r?;
    if !p.results {
        return Ok(One { hist, start: m, idxs, fin: None, nfs });
    }
    let db = open(dir, &p.cfg).map_err(|e| format!("reopening: {e}"))?;
    let o = obs(&db, uni, exact, true);
    close(db);
    let o = o.map_err(|e| format!("after reopening: {e}"))?;
    if !o.m.same(&fm) {
        return Err(format!("after reopening: contents {} expected {}", short(&o.m), short(&fm)));
    }
    Ok(One { hist, start: m, idxs, fin: Some(fm), nfs })
}

/// What an acknowledged operation changed, irrespective of its result.
fn effect(h: &Hop) -> Option<Hop> {
    let changed = match (&h.op, &h.res) {
        (_, None) => true,
        (Op::Set(..) | Op::TSet(..) | Op::BSet(..), _) => true,
        (Op::Remove(..) | Op::TRemove(..), Some(r)) => !matches!(r, Res::Opt(None)),
        (Op::Replace(..), Some(r)) => matches!(r, Res::Prev(_)),
        (Op::Goc(..), Some(r)) => matches!(r, Res::Created(_)),
        _ => false,
    };
    changed.then(|| h.clone())
}

/// Lose everything unsynced at every point of the parallel phase.
fn durable_points(w: &mut Wk, p: &KProg, one: &One, log: &[Ev], c: &mut crash::Ctx) -> Result<(), String> {
    let from = log.iter().position(|e| *e == Ev::Mark(9, 0)).unwrap_or(0);
    let mut flat: Vec<Hop> = vec![];
    for (t, _) in p.threads.iter().enumerate() {
        let mut v: Vec<Hop> = one.hist.iter().filter(|h| h.t == t).cloned().collect();
        v.sort_by_key(|h| h.call);
        flat.extend(v);
    }
    let mut d = crate::durable::Dur::default();
    let mut called = vec![None; flat.len()];
    let mut retd: Vec<Option<u64>> = vec![None; flat.len()];
    let mut last = 0;
    for i in 0..=log.len() {
        // nothing is promised before the first flush of a program
        let flushed = (0..flat.len()).filter(|k| flat[*k].op == Op::Flush && flat[*k].res == Some(Res::Unit) && retd[*k].is_some()).filter_map(|k| called[k]).max();
        if i >= from && (p.durable == 2 || flushed.is_some()) {
            let must = |k: usize| match p.durable {
                2 => retd[k].is_some(),
                _ => retd[k].map_or(false, |r| r < flushed.unwrap()),
            };
            let h: Vec<Hop> = (0..flat.len())
                .filter(|k| called[*k].is_some() && flat[*k].op != Op::Flush)
                .map(|k| if must(k) && flat[k].res.is_some() { Hop { call: called[k].unwrap(), ret: retd[k].unwrap(), ..flat[k].clone() } } else { Hop { call: called[k].unwrap(), ret: u64::MAX, res: None, ..flat[k].clone() } })
                .filter_map(|h| effect(&h))
                .collect();
            let img = d.cut(None);
            let key = hash_s(&format!("{:?}", h.iter().map(|x| (x.t, x.res.is_some(), if x.res.is_some() { (x.call, x.ret) } else { (x.call, 0) })).collect::<Vec<_>>()));
            let here = mcrt::mix(img.hash(), key);
            if here != last {
                last = here;
                let ok = |m: &M| {
                    let its: Vec<Item> = h.iter().map(|o| Item { call: o.call, ret: o.ret, op: std::borrow::Cow::Borrowed(&o.op), res: o.res.as_ref(), any: true, after: None }).collect();
                    orders(&its, &one.start, &one.idxs, Some(m))
                };
                crash::check_image_with(w, c, &img, key, &ok, &|| format!("any order of {} from {}", phist(&h), short(&one.start)), 0, 0, &format!("unsynced data lost after event {i}/{}", log.len()))?;
            }
        }
        match log.get(i) {
            Some(Ev::Mark(1, n)) => called[*n as usize] = Some(i as u64),
            Some(Ev::Mark(2, n)) => retd[*n as usize] = Some(i as u64),
            Some(e) => d.apply(e),
            None => {}
        }
    }
    Ok(())
}

/// Crash at every point of the parallel phase (and while background work finishes).
fn crash_points(w: &mut Wk, p: &KProg, one: &One, log: &[Ev], uni: &Uni, c: &mut crash::Ctx) -> Result<(), String> {
    let from = log.iter().position(|e| *e == Ev::Mark(9, 0)).unwrap_or(0);
    let end = log.iter().position(|e| *e == Ev::Mark(8, 0)).unwrap_or(log.len());
    // ops sorted as spawned
    let mut flat: Vec<Hop> = vec![];
    for (t, _) in p.threads.iter().enumerate() {
        let mut v: Vec<Hop> = one.hist.iter().filter(|h| h.t == t).cloned().collect();
        v.sort_by_key(|h| h.call);
        flat.extend(v);
    }
    let mut img = Image::default();
    let mut called = vec![None; flat.len()];
    let mut retd = vec![None; flat.len()];
    for i in 0..=end {
        if i >= from {
            let h: Vec<Hop> = (0..flat.len())
                .filter(|k| called[*k].is_some())
                .map(|k| Hop { call: called[k].unwrap(), ret: retd[k].unwrap_or(u64::MAX), res: retd[k].and(flat[k].res.clone()), ..flat[k].clone() })
                .collect();
            let ok = |m: &M| linearizable(&h, &one.start, &one.idxs, Some(m));
            let key = hash_s(&format!("{:?}", h.iter().map(|x| (x.t, x.call, x.ret, &x.res)).collect::<Vec<_>>()));
            crash::check_image_with(w, c, &img, key, &ok, &|| format!("any order of {} from {}", phist(&h), short(&one.start)), 0, 0, &format!("crash after event {i}/{}", log.len()))?;
            if let Some(Ev::Write { fid, off, data }) = log.get(i) {
                if data.len() > 8 {
                    let mut t = img.clone();
                    t.apply(&Ev::Write { fid: *fid, off: *off, data: data[..data.len() / 2].to_vec() });
                    crash::check_image_with(w, c, &t, key, &ok, &|| format!("any order of {} from {}", phist(&h), short(&one.start)), 0, 0, &format!("crash inside write event {i}"))?;
                }
            }
        }
        match log.get(i) {
            Some(Ev::Mark(1, n)) => called[*n as usize] = Some(i as u64),
            Some(Ev::Mark(2, n)) => retd[*n as usize] = Some(i as u64),
            Some(e) => img.apply(e),
            None => {}
        }
    }
    let _ = uni;
    Ok(())
}

pub fn run_prog(w: &mut Wk, p: &KProg) -> Result<(), Viol> {
    if !p.faults {
        return run_scheduled(w, p, &mut vec![]);
    }
    let mut q = p.clone();
    q.bound = p.bound.min(1);
    let mut nfs = vec![];
    run_scheduled(w, &q, &mut nfs)?;
    for (t, n) in nfs.into_iter().enumerate() {
        for at in 1..=n {
            if w.out_of_time() {
                return Ok(());
            }
            let f = Fault { thr: Some(t), at, kind: FaultKind::Err(5), persist: false };
            w.add("faults_injected", 1);
            run_scheduled(w, &KProg { fault: Some(f), ..p.clone() }, &mut vec![])?;
        }
    }
    Ok(())
}
fn run_scheduled(w: &mut Wk, p: &KProg, nfs: &mut Vec<u64>) -> Result<(), Viol> {
    let what = p.what();
    w.what = what.clone();
    let mut all: Vec<&Op> = p.init.iter().collect();
    for t in &p.threads {
        all.extend(t.iter());
    }
    let uni = Uni::of(all);
    let dl = w.deadline;
    let t0 = std::time::Instant::now();
    let mut cx = crash::Ctx { cfg: &p.cfg, uni: &uni, merge: true, exact: false, whole: true, slack: p.crash.then_some(4), seen: Default::default(), points: 0, checked: 0 };
    let (st, found) = explore(p.bound, p.visits, p.max_execs, Some(dl), || {
        let dir = w.dir(0);
        let d2 = dir.clone();
        let (r, out) = w.session(Cfg { dir, track: true, race: p.race, log: p.crash || p.durable > 0, durable: p.durable > 0, sync_fault: p.sync_fault, fault: p.fault, max_steps: 3_000_000, ..Default::default() }, || run_once(&d2, p, &uni));
        match r {
            Err(e) => return Some(e),
            Ok(one) => {
                if !out.panics.is_empty() {
                    return Some(format!("panic in a background thread: {:?}", out.panics));
                }
                if p.race && !out.races.is_empty() {
                    return Some(format!("data race: {}", out.races[0]));
                }
                for (t, n) in one.nfs.iter().enumerate() {
                    nfs.resize(nfs.len().max(t + 1), 0);
                    nfs[t] = nfs[t].max(*n);
                }
                w.state(hash_s(&format!("{what}{:?}{:?}", one.fin, one.hist.iter().map(|h| (&h.op, &h.res)).collect::<Vec<_>>())));
                if p.crash || p.durable > 0 {
                    // crash sessions must not disturb the exploration
                    let ctl = mcrt::rt::rt().ctl.take();
                    let objs = std::mem::take(&mut mcrt::rt::rt().objs);
                    let steps = mcrt::rt::rt().steps;
                    let e = if p.durable > 0 { durable_points(w, p, &one, &out.log, &mut cx) } else { crash_points(w, p, &one, &out.log, &uni, &mut cx) };
                    mcrt::rt::rt().ctl = ctl;
                    mcrt::rt::rt().objs = objs;
                    mcrt::rt::rt().steps = steps;
                    if let Err(e) = e {
                        return Some(format!("{e} (schedule: {})", phist(&one.hist)));
                    }
                }
            }
        }
        None
    });
    if std::env::var("MC_TRACE").is_ok() {
        say(&format!("{:6} execs {} complete={} points={} hits={} restarts={} {}\n", t0.elapsed().as_millis(), st.execs, st.complete, st.points, st.cache_hits, st.restarts, what));
    }
    w.add("programs", 1);
    w.add("schedules", st.execs);
    w.add("schedule_states", st.states);
    w.add("crash_points", cx.points);
    w.add("crash_states_checked", cx.checked);
    w.add("max_choices", 0);
    if let Some(f) = found {
        return w.check(viol(format!("{}:{:016x}", p.name, hash_s(&what)), format!("{what} => {} [schedule {:?}]", f.v, compact(&f.choices))));
    }
    if st.complete {
        w.add("programs_complete", 1);
    } else {
        w.incomplete();
    }
    Ok(())
}

fn compact(c: &[u8]) -> String {
    let v: Vec<String> = c.iter().enumerate().filter(|(_, x)| **x != 0).map(|(i, x)| format!("{i}:{x}")).collect();
    format!("switches at {} of {} choices", v.join(","), c.len())
}

pub fn units(progs: Vec<KProg>, chunk: usize) -> Vec<Unit> {
    let mut us = vec![];
    let n = progs.len();
    let mut i = 0;
    for c in progs.chunks(chunk) {
        let c = c.to_vec();
        us.push(unit(format!("{} programs {i}..{} of {n}, every schedule", c[0].name, i + c.len()), move |w| {
            for p in &c {
                if w.out_of_time() {
                    break;
                }
                w.sample(|| format!("every schedule with at most {} preemptions of {}", p.bound, p.what()));
                run_prog(w, p)?;
            }
            Ok(())
        }));
        i += chunk;
    }
    us
}

/// all unordered combinations of thread programs
pub fn combos(seqs: &[Vec<Op>], n: usize) -> Vec<Vec<Vec<Op>>> {
    combos_of(seqs, n)
}
pub fn combos_of<T: Clone>(seqs: &[Vec<T>], n: usize) -> Vec<Vec<Vec<T>>> {
    fn rec<T: Clone>(seqs: &[Vec<T>], n: usize, from: usize, cur: &mut Vec<Vec<T>>, out: &mut Vec<Vec<Vec<T>>>) {
        if n == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..seqs.len() {
            cur.push(seqs[i].clone());
            rec(seqs, n - 1, i, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(seqs, n, 0, &mut vec![], &mut out);
    out
}
pub fn seqs(alpha: &[Op], len: usize) -> Vec<Vec<Op>> {
    let mut v: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|s| alpha.iter().map(move |o| { let mut s = s.clone(); s.push(o.clone()); s })).collect();
    }
    v
}

/// every pairing of a two-operation thread with a one-operation thread
pub fn two_one(a: &[Op], b: &[Op]) -> Vec<Vec<Vec<Op>>> {
    let mut v = vec![];
    for x in seqs(a, 2) {
        for y in b {
            v.push(vec![x.clone(), vec![y.clone()]]);
        }
    }
    v
}
