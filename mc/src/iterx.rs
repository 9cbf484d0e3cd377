//! Iteration: exhaustive positions and interleaved modification.
use crate::fw::*;
use crate::model::M;
use crate::util::*;
use candystore::Config;
use drv::{Op, Res, V};
use std::collections::{BTreeMap, BTreeSet};

fn ub<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    mcrt::user(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))).map_err(|e| {
        e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or("panic".into())
    })
}

/// On a quiescent store: plain iteration is exact, and so is pausing at every position and resuming
/// from the cookie.
pub fn exact_with_cookies(db: &drv::Db, m: &M, _c: &Config) -> Result<(), String> {
    let want: Vec<(V, V)> = m.kv.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    let full = match ex(db, &Op::Iter, &[]) {
        Res::KVs(v) => v,
        r => return Err(format!("iteration returned {}", pres(&r))),
    };
    let mut s = full.clone();
    s.sort();
    if s != want {
        return Err(format!("iteration returned {} items instead of {}: {}", s.len(), want.len(), pres(&Res::KVs(full))));
    }
    let n = want.len();
    for at in (0..=n + 1).filter(|at| n < 40 || *at < 3 || at + 3 > n || (*at + 2) % 64 < 4) {
        let (x, _c, y) = ub(|| drv::iter_cookie(db, at))?;
        let mut all = x.clone();
        all.extend(y.clone());
        all.sort();
        if all != want {
            return Err(format!(
                "pausing after {at} of {} items and resuming from the cookie returned {} items in total ({} before, {} after)",
                want.len(),
                all.len(),
                x.len(),
                y.len()
            ));
        }
    }
    Ok(())
}

pub struct Live {
    pub name: String,
    pub cfg: Config,
    pub init: Vec<Op>,
    pub alpha: Vec<Op>,
    pub depth: usize,
    /// operations are inserted after this many items (all values up to and including `maxpos`)
    pub maxpos: usize,
    /// sequences up to this length are also split: the first operation earlier than the rest
    pub split: usize,
}

/// Every way to place `n` operations into an iteration: all of them after the same number of items, or,
/// for short sequences, the first one earlier than the others.
fn places(n: usize, maxpos: usize, split: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = (0..=maxpos).map(|p| vec![p; n]).collect();
    if n >= 2 && n <= split {
        for i in 0..maxpos {
            for j in i + 1..=maxpos {
                let mut x = vec![j; n];
                x[0] = i;
                v.push(x);
            }
        }
    }
    v
}

fn pplan(ops: &[Op], at: &[usize]) -> String {
    let mut v = vec![];
    let mut i = 0;
    while i < ops.len() {
        let j = (i..ops.len()).take_while(|j| at[*j] == at[i]).last().unwrap() + 1;
        v.push(format!("after {} items: {}", at[i], pops(&ops[i..j])));
        i = j;
    }
    v.join("; ")
}

/// Iterate; after `at[i]` items run `ops[i]`; check that every key no operation touches is returned.
fn run_live(dir: &str, p: &Live, at: &[usize], ops: &[Op]) -> Result<u64, String> {
    let db = open(dir, &p.cfg)?;
    let mut m = M::default();
    let mut hist: BTreeMap<V, BTreeSet<V>> = BTreeMap::new();
    let note = |m: &M, hist: &mut BTreeMap<V, BTreeSet<V>>| {
        for (k, v) in &m.kv {
            hist.entry(k.clone()).or_default().insert(v.clone());
        }
    };
    let mut bad = None;
    for o in &p.init {
        let r = ex(&db, o, &[]);
        if !m.accept(o, &r, &[]) {
            bad = Some(format!("setup {} returned {}", pop(o), pres(&r)));
        }
    }
    quiesce();
    note(&m, &mut hist);
    let touched = crate::model::Uni::of(ops).kv;
    let stable: Vec<(V, V)> = m.kv.iter().filter(|(k, _)| !touched.contains(*k)).map(|(a, b)| (a.clone(), b.clone())).collect();
    let mut got: Vec<(V, V)> = vec![];
    let mut n = 0;
    {
        let mut mid = |n: usize, bad: &mut Option<String>| {
            for (o, _) in ops.iter().zip(at).filter(|x| *x.1 == n) {
                if *o == Op::Quiesce {
                    quiesce();
                    continue;
                }
                let r = ex(&db, o, &[]);
                if !m.accept(o, &r, &[]) {
                    *bad = Some(format!("{} during iteration returned {}", pop(o), pres(&r)));
                }
                note(&m, &mut hist);
            }
        };
        mid(0, &mut bad);
        let r = ub(|| {
            drv::iter_all(&db, |kv| {
                let u = mcrt::Hook::enter();
                got.push(kv.clone());
                n += 1;
                if n > 10_000 {
                    panic!("iteration does not terminate");
                }
                mid(n, &mut bad);
                drop(u);
            })
        });
        if let Err(e) = r {
            bad = Some(e);
        }
    }
    close(db);
    if let Some(b) = bad {
        return Err(b);
    }
    for kv in &stable {
        if !got.contains(kv) {
            return Err(format!("key {} was never touched but the iteration did not return it", String::from_utf8_lossy(&kv.0)));
        }
    }
    for (k, v) in &got {
        if !hist.get(k).map_or(false, |h| h.contains(v)) {
            return Err(format!("iteration returned {}={} which was never stored", String::from_utf8_lossy(k), String::from_utf8_lossy(v)));
        }
    }
    Ok(mcrt::mix(hash_m(&m), got.len() as u64))
}

pub fn live_units(ps: Vec<Live>, chunk: u64) -> Vec<Unit> {
    let mut us = vec![];
    for p in ps {
        let p = std::sync::Arc::new(p);
        let sp = crate::seq::Prog::new(&p.name, p.cfg.clone(), vec![], p.alpha.clone(), p.depth);
        let total = sp.total();
        let sp = std::sync::Arc::new(sp);
        let mut s = 0;
        while s < total {
            let e = (s + chunk).min(total);
            let (p, sp) = (p.clone(), sp.clone());
            us.push(unit(format!("{} modifications {s}..{e} of {total} at every position", p.name), move |w| {
                for n in s..e {
                    let ops = sp.nth(n);
                    for at in places(ops.len(), p.maxpos, p.split) {
                        if w.out_of_time() {
                            return Ok(());
                        }
                        let what = format!("[{}] {} ; iterate, {}", pcfg(&p.cfg), pops(&p.init), pplan(&ops, &at));
                        w.what = what.clone();
                        let dir = w.dir(0);
                        let d2 = dir.clone();
                        let (r, out) = w.session(mcrt::rt::Cfg { dir, ..Default::default() }, || run_live(&d2, &p, &at, &ops));
                        let r = match r {
                            Ok(_) if !out.panics.is_empty() => Err(format!("panic in a background thread: {:?}", out.panics)),
                            Ok(h) => {
                                w.state(mcrt::mix(h, hash_s(&format!("{at:?}"))));
                                Ok(())
                            }
                            Err(e) => Err(e),
                        };
                        if let Err(e) = r {
                            w.check(viol(format!("{}:{:016x}", p.name, hash_s(&what)), format!("{what} => {e}")))?;
                        }
                    }
                    if n + 1 == total {
                        w.sample(|| format!("at each position: {}", pops(&ops)));
                    }
                }
                Ok(())
            }));
            s = e;
        }
    }
    us
}

// ------------------------------------------------------------------ iterating one list or queue
#[derive(Clone)]
pub struct LiveSeq {
    pub name: String,
    pub cfg: Config,
    pub init: Vec<Op>,
    pub on: drv::Seq,
    pub alpha: Vec<Op>,
    pub depth: usize,
    pub maxpos: usize,
    pub split: usize,
    pub eager: bool,
}

/// items of the list or queue in the model, as the iterators report them
fn items(m: &M, on: &drv::Seq) -> Vec<(usize, V, V)> {
    match on {
        drv::Seq::L(l) => m.lists.get(l).map_or(vec![], |x| x.iter().map(|(k, v)| (0, k.clone(), v.clone())).collect()),
        drv::Seq::Q(q) => m.queues.get(q).map_or(vec![], |x| x.iter().map(|(i, v)| (*i, vec![], v.clone())).collect()),
    }
}
/// what identifies an item: its key, or its index and value
fn ident(on: &drv::Seq, x: &(usize, V, V)) -> (usize, V) {
    match on {
        drv::Seq::L(_) => (0, x.1.clone()),
        drv::Seq::Q(_) => (x.0, x.2.clone()),
    }
}
fn pitem(x: &(usize, V, V)) -> String {
    format!("{:x}:{}={}", x.0, String::from_utf8_lossy(&x.1), String::from_utf8_lossy(&x.2))
}

fn run_seq(dir: &str, p: &LiveSeq, fwd: bool, at: &[usize], ops: &[Op]) -> Result<u64, String> {
    let db = open(dir, &p.cfg)?;
    let mut m = M::default();
    let mut idxs = vec![];
    let mut bad = None;
    for o in &p.init {
        let r = ex(&db, o, &idxs);
        crate::model::pushed(o, &r, &mut idxs);
        if !m.accept(o, &r, &idxs) {
            bad = Some(format!("setup {} returned {}", pop(o), pres(&r)));
        }
        if p.eager {
            quiesce();
        }
    }
    quiesce();
    // stay: in it at all times so far, in order; ever: in it at some time
    let mut stay: Vec<(usize, V)> = items(&m, &p.on).iter().map(|x| ident(&p.on, x)).collect();
    let mut ever: BTreeSet<(usize, V, V)> = items(&m, &p.on).into_iter().collect();
    let mut got: Vec<(usize, V, V)> = vec![];
    let mut hints = vec![];
    let mut exact = true;
    let mut n = 0;
    let r = ub(|| {
        drv::iter_seq(&db, &p.on, fwd, |it, hint| {
            let u = mcrt::Hook::enter();
            if let Some(x) = it {
                got.push(x.clone());
                n += 1;
                if n > 1000 {
                    panic!("iteration does not terminate");
                }
            }
            hints.push((n, hint));
            for (o, _) in ops.iter().zip(at).filter(|x| *x.1 == n) {
                if *o == Op::Quiesce {
                    quiesce();
                    continue;
                }
                let r = ex(&db, o, &idxs);
                crate::model::pushed(o, &r, &mut idxs);
                let was = items(&m, &p.on);
                if !m.accept(o, &r, &idxs) {
                    bad = Some(format!("{} during the iteration returned {}", pop(o), pres(&r)));
                }
                if p.eager {
                    quiesce();
                }
                match o {
                    // documented to move the item to the end
                    Op::LProm(l, k, _) if drv::Seq::L(l.clone()) == p.on => stay.retain(|x| x.1 != *k),
                    // rewrites the list
                    Op::LCompact(l, _) if drv::Seq::L(l.clone()) == p.on => exact = false,
                    _ => {}
                }
                let now = items(&m, &p.on);
                let ids: Vec<_> = now.iter().map(|x| ident(&p.on, x)).collect();
                stay.retain(|x| ids.contains(x));
                if was != now {
                    ever.extend(now);
                }
            }
            drop(u);
        })
    });
    let h = mcrt::mix(hash_m(&m), got.len() as u64);
    close(db);
    r?;
    if let Some(b) = bad {
        return Err(b);
    }
    let pg = || got.iter().map(pitem).collect::<Vec<_>>().join(" ");
    if !fwd {
        stay.reverse();
    }
    let seen: Vec<_> = got.iter().map(|x| ident(&p.on, x)).filter(|x| stay.contains(x)).collect();
    if exact && seen != stay {
        return Err(format!("in it all the time, in this order: {}; but the iteration returned {}", stay.iter().map(|x| format!("{:x}:{}", x.0, String::from_utf8_lossy(&x.1))).collect::<Vec<_>>().join(" "), pg()));
    }
    for x in &got {
        if !ever.contains(x) {
            return Err(format!("the iteration returned {} which was not in it at any time meanwhile ({})", pitem(x), pg()));
        }
    }
    for (n, (lo, hi)) in hints {
        let left = got.len() - n;
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!("after {n} items the iterator announced {lo} to {hi:?} more, but returned {left}"));
        }
    }
    Ok(h)
}

pub fn seq_units(ps: Vec<LiveSeq>, chunk: u64) -> Vec<Unit> {
    let mut us = vec![];
    for p in ps {
        let p = std::sync::Arc::new(p);
        let sp = std::sync::Arc::new(crate::seq::Prog::new(&p.name, p.cfg.clone(), vec![], p.alpha.clone(), p.depth));
        let total = sp.total();
        let mut s = 0;
        while s < total {
            let e = (s + chunk).min(total);
            let (p, sp) = (p.clone(), sp.clone());
            us.push(unit(format!("{} modifications {s}..{e} of {total} at every position, both directions", p.name), move |w| {
                for n in s..e {
                    let ops = sp.nth(n);
                    for at in places(ops.len(), p.maxpos, p.split) {
                        for fwd in [true, false] {
                            if w.out_of_time() {
                                return Ok(());
                            }
                            let what = format!("[{}] {} ; iterate {:?} {}, {}", pcfg(&p.cfg), pops(&p.init), p.on, if fwd { "forwards" } else { "backwards" }, pplan(&ops, &at));
                            w.what = what.clone();
                            let dir = w.dir(0);
                            let d2 = dir.clone();
                            let (r, out) = w.session(mcrt::rt::Cfg { dir, ..Default::default() }, || run_seq(&d2, &p, fwd, &at, &ops));
                            let r = match r {
                                Ok(_) if !out.panics.is_empty() => Err(format!("panic in a background thread: {:?}", out.panics)),
                                Ok(h) => {
                                    w.state(mcrt::mix(h, hash_s(&format!("{at:?}{fwd}"))));
                                    Ok(())
                                }
                                Err(e) => Err(e),
                            };
                            if let Err(e) = r {
                                w.check(viol(format!("{}:{:016x}", p.name, hash_s(&what)), format!("{what} => {e}")))?;
                            }
                        }
                    }
                    if n + 1 == total {
                        w.sample(|| format!("at each position, in both directions: {}", pops(&ops)));
                    }
                }
                Ok(())
            }));
            s = e;
        }
    }
    us
}
