//! Fault injection: every file-system call of a history fails, is cut short or is interrupted, once or
//! from then on, and the store must stay correct, immediately and after reopening.
use crate::crash;
use crate::fw::*;
use crate::model::{pushed, short, Uni, M};
use crate::util::*;
use candystore::Config;
use drv::{Idx, Op, Res, V};
use mcrt::image::Image;
use mcrt::rt::{rt, Cfg, Fault, FaultKind};
use std::sync::Arc;
use Op::*;

const EIO: i32 = 5;
const ENOSPC: i32 = 28;

#[derive(Clone)]
pub struct FProg {
    pub name: String,
    pub cfg: Config,
    pub init: Vec<Op>,
    pub alpha: Vec<Op>,
    pub depth: usize,
    pub eager: bool,
    /// further failing calls combined with the first one
    pub kinds: u8,
}

/// The kinds of failure applicable to one call.
fn kinds(name: &str, all: bool) -> Vec<(FaultKind, bool)> {
    let op = name.split(':').next().unwrap_or("");
    let mut v = vec![(FaultKind::Err(EIO), false)];
    if matches!(op, "pwrite" | "write" | "pread" | "read") {
        v.push((FaultKind::Short, false));
        if all {
            v.push((FaultKind::Intr, false));
        }
    }
    if !matches!(op, "pread" | "read" | "mmap" | "opendir") {
        v.push((FaultKind::Err(ENOSPC), true));
    }
    v
}

fn dedup(v: Vec<M>) -> Vec<M> {
    let mut o: Vec<M> = vec![];
    for m in v {
        if !o.contains(&m) {
            o.push(m);
        }
    }
    o
}

/// Updates that waste space; afterwards it must have been reclaimed, and the counters must be right.
fn pump(db: &drv::Db, m: &mut M, uni: &Uni, cfg: &Config) -> Result<(), String> {
    let mut go = |m: &mut M, op: Op| -> Result<Res, String> {
        let r = ex(db, &op, &[]);
        if !m.accept(&op, &r, &[]) {
            return Err(format!("once the fault was gone, {} returned {} in state {}", pop(&op), pres(&r), short(m)));
        }
        Ok(r)
    };
    // a fixed key in every shard selector quarter plus the ones in use
    for k in uni.kv.iter() {
        for i in 0..10u8 {
            go(m, Set(k.clone(), val(b'A' + i, 24)))?;
        }
    }
    quiesce();
    for k in uni.kv.iter() {
        go(m, Set(k.clone(), val(b'Z', 24)))?;
    }
    quiesce();
    let Res::Stats(s) = go(m, Stats)? else { unreachable!() };
    let Res::Num(n) = go(m, RawCount)? else { return Err("RawCount failed".into()) };
    if s.inserts.wrapping_sub(s.removals) != n {
        return Err(format!("once the fault was gone, statistics report {} inserts and {} removals but {n} entries are stored", s.inserts, s.removals));
    }
    // every write to a shard that has wasted the threshold starts a compaction
    let per = cfg.min_compaction_threashold as usize + 60;
    if !uni.kv.is_empty() && (cfg.min_compaction_threashold as usize) < 1000 && s.wasted > s.num_shards * per {
        return Err(format!("once the fault was gone, wasted space is no longer reclaimed: {} bytes in {} shards", s.wasted, s.num_shards));
    }
    Ok(())
}

struct Dry {
    n0: u64,
    n1: u64,
    names: Vec<String>,
}

fn dry(w: &mut Wk, p: &FProg, ops: &[Op]) -> Result<Dry, String> {
    let dir = w.dir(0);
    let (d2, p2) = (dir.clone(), p.clone());
    let (r, out) = w.session(Cfg { dir, ..Default::default() }, move || -> Result<(u64, u64), String> {
        rt().want_fs_names = true;
        let db = open(&d2, &p2.cfg)?;
        for op in &p2.init {
            apply(&db, op, &[]);
        }
        let n0 = rt().nfs;
        for op in ops {
            apply(&db, op, &[]);
            if p2.eager {
                quiesce();
            }
        }
        quiesce();
        let n1 = rt().nfs;
        rt().want_fs_names = false;
        close(db);
        Ok((n0, n1))
    });
    let (n0, n1) = r?;
    Ok(Dry { n0, n1, names: out.fs_names })
}
/// The file operations of a history, and how many of them opening the store makes.
pub fn names(w: &mut Wk, cfg: &Config, ops: &[Op], eager: bool) -> Result<(usize, Vec<String>), String> {
    let p = FProg { name: String::new(), cfg: cfg.clone(), init: vec![], alpha: vec![], depth: 0, eager, kinds: 0 };
    let d = dry(w, &p, ops)?;
    Ok((d.n0 as usize, d.names[..d.n1 as usize].to_vec()))
}
fn apply(db: &drv::Db, op: &Op, idxs: &[usize]) -> Res {
    match op {
        Quiesce => {
            quiesce();
            Res::Unit
        }
        _ => ex(db, op, idxs),
    }
}

fn faulted(w: &mut Wk, p: &FProg, ops: &[Op], f: Fault, live: bool, first: bool, hit: &mut Option<String>, background: &mut bool) -> Result<(), String> {
    let dir = w.dir(1);
    let (d2, p2) = (dir.clone(), p.clone());
    let uni = Uni::of(p.init.iter().chain(ops));
    let (r, out) = w.session(Cfg { dir, fault: Some(f), ..Default::default() }, || -> Result<(), String> {
        let cfg = &p2.cfg;
        let db = open(&d2, cfg)?;
        let mut m = M::default();
        let mut idxs = vec![];
        for op in &p2.init {
            let r = apply(&db, op, &idxs);
            pushed(op, &r, &mut idxs);
            if *op != Quiesce && !m.accept(op, &r, &idxs) {
                return Err(format!("{} returned {}", pop(op), pres(&r)));
            }
        }
        let mut cands = vec![m];
        let mut any = false;
        *background = true;
        for op in ops {
            let r = apply(&db, op, &idxs);
            pushed(op, &r, &mut idxs);
            match &r {
                Res::Panic(e) => {
                    rt().cfg.fault = None;
                    close(db);
                    return Err(format!("{} panicked: {e}", pop(op)));
                }
                Res::Err(e) => {
                    if rt().fault_hit.is_none() {
                        return Err(format!("{} failed without any fault: {e:?}", pop(op)));
                    }
                    *background = false;
                    if *op == Clear {
                        any = true;
                    }
                    cands = dedup(cands.iter().flat_map(|m| m.in_flight(op, &idxs)).collect());
                }
                _ if *op == Quiesce => {}
                r if any && *op != Clear => {
                    let _ = r;
                }
                r => {
                    if *op == Clear {
                        any = false;
                    }
                    let n: Vec<M> = cands
                        .iter()
                        .filter_map(|c| {
                            let mut c = c.clone();
                            c.accept(op, r, &idxs).then_some(c)
                        })
                        .collect();
                    if n.is_empty() {
                        let e = format!("{} returned {} which fits none of the states {}", pop(op), pres(r), cands.iter().map(short).collect::<Vec<_>>().join(" | "));
                        rt().cfg.fault = None;
                        close(db);
                        return Err(e);
                    }
                    cands = dedup(n);
                }
            }
            if p2.eager {
                quiesce();
            }
        }
        quiesce();
        rt().cfg.fault = None;
        if any {
            // clearing failed half way: it must be possible to complete it
            if live {
                let r = ex(&db, &Clear, &[]);
                if r != Res::Unit {
                    close(db);
                    return Err(format!("clearing again after it failed returned {}", pres(&r)));
                }
            }
            close(db);
            let db = open(&d2, cfg).map_err(|e| format!("after a failed clear: {e}"))?;
            let o = obs(&db, &uni, false, true);
            if live && o.as_ref().map_or(true, |o| o.m != M::default()) {
                close(db);
                return Err(format!("clearing again after it failed left {:?}", o.map(|o| short(&o.m))));
            }
            let mut m = match o {
                Ok(o) => o.m,
                Err(e) => {
                    close(db);
                    return Err(format!("after a failed clear and reopening: {e}"));
                }
            };
            let r = crash::follow_up(&db, &mut m, &uni, true).and_then(|_| pump(&db, &mut m, &uni, cfg));
            close(db);
            return r;
        }
        let fits = |m: &M| cands.iter().any(|c| c.same(m));
        let see = |db: &drv::Db, when: &str| -> Result<M, String> {
            let o = obs(db, &uni, false, true).map_err(|e| format!("{when}: {e}"))?;
            if !fits(&o.m) {
                return Err(format!("{when}: contents {} are not among {}", short(&o.m), cands.iter().map(short).collect::<Vec<_>>().join(" | ")));
            }
            Ok(o.m)
        };
        let use_it = |db: &drv::Db, m: &mut M| {
            // merging also completes a compaction that failed; so does writing alone
            if first {
                pump(db, m, &uni, cfg)?;
                return crash::follow_up(db, m, &uni, true);
            }
            crash::follow_up(db, m, &uni, true).and_then(|_| pump(db, m, &uni, cfg))
        };
        let r = see(&db, "right after the fault").and_then(|mut m| {
            if live {
                use_it(&db, &mut m)?;
            }
            Ok(m)
        });
        close(db);
        let m = r?;
        let same = |db: &drv::Db, m: &M, when: &str| -> Result<(), String> {
            let o = obs(db, &uni, false, true).map_err(|e| format!("{when}: {e}"))?;
            if !m.same(&o.m) {
                return Err(format!("{when}: contents {} expected {}", short(&o.m), short(m)));
            }
            Ok(())
        };
        let db = open(&d2, cfg).map_err(|e| format!("reopening after the fault: {e}"))?;
        let mut m = m;
        let r = same(&db, &m, "after the fault and reopening").and_then(|_| if live { Ok(()) } else { m = see(&db, "after the fault and reopening")?; use_it(&db, &mut m) });
        close(db);
        r?;
        if !live {
            let db = open(&d2, cfg).map_err(|e| format!("reopening again after the fault: {e}"))?;
            let r = same(&db, &m, "after the fault, use and reopening");
            close(db);
            r?;
        }
        Ok(())
    });
    *hit = out.fault_hit.clone();
    if !out.panics.is_empty() {
        return Err(format!("panic in a background thread: {:?}; {:?}", out.panics, r));
    }
    r
}

fn fstr(f: &Fault) -> String {
    let k = match f.kind {
        FaultKind::Err(EIO) => "I/O error".into(),
        FaultKind::Err(ENOSPC) => "no space left".into(),
        FaultKind::Err(e) => format!("errno {e}"),
        FaultKind::Short => "short transfer".into(),
        FaultKind::Intr => "interrupted".to_string(),
    };
    format!("{k}{}", if f.persist { " from then on" } else { "" })
}

fn run_one(w: &mut Wk, p: &FProg, ops: &[Op]) -> Result<(), Viol> {
    let base = format!("[{}{}] init: {} then {}", pcfg(&p.cfg), if p.eager { ",eager" } else { "" }, pops(&p.init), pops(ops));
    w.what = base.clone();
    let d = match dry(w, p, ops) {
        Ok(d) => d,
        Err(e) => return w.check(viol(format!("{}:{:016x}", p.name, hash_s(&base)), format!("{base} => without any fault: {e}"))),
    };
    for at in d.n0 + 1..=d.n1 {
        let nm = d.names.get(at as usize - 1).cloned().unwrap_or_default();
        for (kind, persist) in kinds(&nm, p.kinds > 0) {
            let f = Fault { thr: None, at, kind, persist };
            let mut background = false;
            for (live, first) in [(true, false), (true, true), (false, false)] {
                // only where a background task was interrupted
                if first && (!background || !matches!(kind, FaultKind::Err(_))) {
                    continue;
                }
                if w.out_of_time() {
                    return Ok(());
                }
                let what = format!("{base}; {} at {nm} (call {}{})", fstr(&f), at - d.n0, if first { ", kept open and written to" } else if live { ", kept open" } else { ", reopened" });
                w.what = what.clone();
                w.add("faults_injected", 1);
                w.state(hash_s(&what));
                let mut hit = None;
                if let Err(e) = faulted(w, p, ops, f, live, first, &mut hit, &mut background) {
                    w.check(viol(format!("{}:{:016x}", p.name, hash_s(&what)), format!("{what} => {e}")))?;
                }
                if hit.is_none() {
                    mcrt::rt::fatal("nondeterminism", "the fault was not reached");
                }
            }
        }
    }
    Ok(())
}

pub fn units(progs: Vec<FProg>, chunk: u64) -> Vec<Unit> {
    let mut us = vec![];
    for p in progs {
        let sp = crate::seq::Prog::new(&p.name, p.cfg.clone(), vec![], p.alpha.clone(), p.depth);
        let total = sp.total();
        let (p, sp) = (Arc::new(p), Arc::new(sp));
        let mut s = 1;
        while s < total {
            let e = (s + chunk).min(total);
            let (p, sp) = (p.clone(), sp.clone());
            us.push(unit(format!("{} sequences {s}..{e} of {total}, every file operation failing", p.name), move |w| {
                for n in s..e {
                    if w.out_of_time() {
                        break;
                    }
                    let ops = sp.nth(n);
                    if n + 1 == total {
                        w.sample(|| format!("every file operation of {} failing after {}", pops(&ops), pops(&p.init)));
                    }
                    run_one(w, &p, &ops)?;
                }
                Ok(())
            }));
            s = e;
        }
    }
    us
}

/// Faults while opening: the directory is the crash image after every event of a history.
fn open_units(name: &str, cfg: Config, cfg2: Config, ops: Vec<Op>, from: usize, eager: bool, images: bool) -> Vec<Unit> {
    let nm = name.to_string();
    vec![unit(format!("{name}: every file operation of opening failing{}", if images { ", in every crash image" } else { "" }), move |w| {
        let base = format!("{nm} [{}] {}", pcfg(&cfg), pops(&ops));
        w.what = base.clone();
        let r = (|| -> Result<(), String> {
            let h = crash::record(w, &cfg, &cfg, &ops, eager)?;
            let mut c = crash::Ctx { cfg: &cfg2, uni: &h.uni, merge: true, exact: false, whole: true, slack: None, seen: Default::default(), points: 0, checked: 0 };
            let mut img = Image::default();
            let mut cur = (0usize, false);
            let mut on = from == 0;
            let mut seen = mcrt::Set::default();
            for i in 0..=h.log.len() {
                if (on && images) || i == h.log.len() {
                    let allowed: Vec<&M> = if cur.1 { h.flight[cur.0].iter().collect() } else { vec![&h.before[cur.0]] };
                    let key = img.hash();
                    if seen.insert(key) {
                        open_faults(w, &mut c, &img, &allowed, &format!("{base} after event {i}/{}", h.log.len()))?;
                    }
                }
                match h.log.get(i) {
                    Some(mcrt::Ev::Mark(1, n)) => {
                        cur = (*n as usize, true);
                        on |= *n as usize >= from;
                    }
                    Some(mcrt::Ev::Mark(2, n)) => cur = (*n as usize + 1, false),
                    Some(e) => img.apply(e),
                    None => {}
                }
                if w.out_of_time() {
                    break;
                }
            }
            w.add("crash_states_checked", c.checked);
            Ok(())
        })();
        match r {
            Err(e) => w.check(viol(format!("open:{:016x}", hash_s(&e)), e)),
            _ => Ok(()),
        }
    })]
}

fn open_faults(w: &mut Wk, c: &mut crash::Ctx, img: &Image, allowed: &[&M], where_: &str) -> Result<(), String> {
    let cfg = c.cfg;
    let dir = w.dir(1);
    img.materialize(&dir);
    let d2 = dir.clone();
    let (r, out) = w.session(Cfg { dir: dir.clone(), ..Default::default() }, || -> Result<u64, String> {
        rt().want_fs_names = true;
        let db = open(&d2, cfg)?;
        let n = rt().nfs;
        rt().want_fs_names = false;
        close(db);
        Ok(n)
    });
    let n = r.map_err(|e| format!("{where_}: {e}"))?;
    for at in 1..=n {
        let nm = out.fs_names.get(at as usize - 1).cloned().unwrap_or_default();
        for (kind, persist) in kinds(&nm, true) {
            if w.out_of_time() {
                return Ok(());
            }
            let f = Fault { thr: None, at, kind, persist };
            wipe(&dir);
            img.materialize(&dir);
            w.what = format!("{where_}; open with {} at {nm} (call {at})", fstr(&f));
            let what = w.what.clone();
            w.add("faults_injected", 1);
            let d2 = dir.clone();
            let uni = c.uni;
            let al: Vec<M> = allowed.iter().map(|m| (*m).clone()).collect();
            let (r, out) = w.session(Cfg { dir: dir.clone(), fault: Some(f), ..Default::default() }, || -> Result<(), String> {
                let r = open(&d2, cfg);
                rt().cfg.fault = None;
                match r {
                    Ok(db) => {
                        let r = obs(&db, uni, false, true);
                        close(db);
                        let o = r.map_err(|e| format!("opening succeeded, but {e}"))?;
                        if !al.iter().any(|m| m.same(&o.m)) {
                            return Err(format!("opening succeeded, but the contents are {}", short(&o.m)));
                        }
                        Ok(())
                    }
                    Err(e) if e.starts_with("open panicked") => Err(e),
                    Err(_) => Ok(()),
                }
            });
            if out.fault_hit.is_none() {
                mcrt::rt::fatal("nondeterminism", "the fault was not reached");
            }
            if !out.panics.is_empty() {
                return Err(format!("{what}: panic in a background thread: {:?}", out.panics));
            }
            r.map_err(|e| format!("{what}: {e}"))?;
            let after = Image::from_dir(&dir, 0);
            crash::check_image(w, c, &after, allowed, 0, 2, &format!("{what}, then opening without a fault"))?;
        }
    }
    Ok(())
}

/// Faults while opening a store whose background compaction had stopped half way (its reads failing once),
/// after which both compacted and not yet compacted entries were modified.
fn stuck_units(name: &str, cfg: Config, ops: Vec<Op>, chunk: usize) -> Vec<Unit> {
    let nm = name.to_string();
    (0..chunk)
        .map(|part| {
            let (nm, cfg, ops) = (nm.clone(), cfg.clone(), ops.clone());
            unit(format!("{name} part {part}: every file operation of opening failing after a compaction stopped half way"), move |w| {
                let base = format!("{nm} [{}] {}", pcfg(&cfg), pops(&ops));
                w.what = base.clone();
                let p = FProg { name: nm.clone(), cfg: cfg.clone(), init: vec![], alpha: vec![], depth: 0, eager: false, kinds: 0 };
                let r = (|| -> Result<(), String> {
                    let d = dry(w, &p, &ops)?;
                    let mut seen = mcrt::Set::default();
                    for at in (d.n0 + 1..=d.n1).filter(|n| *n as usize % chunk == part) {
                        let fname = &d.names[at as usize - 1];
                        if !fname.starts_with("pread:") && !fname.starts_with("rename:") {
                            continue;
                        }
                        let f = Fault { thr: None, at, kind: FaultKind::Err(EIO), persist: false };
                        // an operation that failed isn't the case we're after
                        let Ok(h) = crash::record_fault(w, &cfg, &cfg, &ops, false, Some(f)) else { continue };
                        let mut c = crash::Ctx { cfg: &cfg, uni: &h.uni, merge: true, exact: false, whole: true, slack: None, seen: Default::default(), points: 0, checked: 0 };
                        let mut img = Image::default();
                        let mut done = 0;
                        for i in 0..=h.log.len() {
                            if done + 2 >= ops.len() && seen.insert(img.hash()) && done >= 1 {
                                let m: Vec<&M> = if done == ops.len() { vec![&h.before[done]] } else { h.flight[done].iter().chain([&h.before[done]]).collect() };
                                open_faults(w, &mut c, &img, &m, &format!("{base} with an I/O error at {fname} (call {at}), after event {i}/{}", h.log.len()))?;
                            }
                            match h.log.get(i) {
                                Some(mcrt::Ev::Mark(2, n)) => done = *n as usize + 1,
                                Some(mcrt::Ev::Mark(..)) | None => {}
                                Some(e) => img.apply(e),
                            }
                            if w.out_of_time() {
                                break;
                            }
                        }
                        w.add("crash_states_checked", c.checked);
                    }
                    Ok(())
                })();
                match r {
                    Err(e) => w.check(viol(format!("open:{:016x}", hash_s(&e)), e)),
                    _ => Ok(()),
                }
            })
        })
        .collect()
}

pub fn c23(t: Tier) -> Vec<Unit> {
    let q = t == Tier::Quick;
    let v = |c| val(c, 20);
    let a = find_key("a", |s, r, _| s < 0x4000 && r == 1);
    let a2 = find_key("A", |s, r, _| s < 0x4000 && r == 2);
    let c = find_key("b", |s, r, _| s >= 0xc000 && r == 1);
    let (l, qn) = (b("L"), b("Q"));
    let kv = vec![Set(a.clone(), v(b'1')), Set(c.clone(), v(b'2')), Set(b("new"), v(b'3')), Remove(a.clone()), Goc(a2.clone(), v(b'4')), Replace(c.clone(), v(b'5'), None), Get(a.clone()), Stats, Flush, Merge(40_000)];
    let full = vec![Set(a.clone(), v(b'x')), Set(a2.clone(), v(b'x')), Set(c.clone(), v(b'x'))];
    let waste = vec![Set(a.clone(), v(b'x')), Set(a2.clone(), v(b'x')), Set(c.clone(), v(b'w')), Set(c.clone(), v(b'x')), Quiesce];
    let mut ps: Vec<FProg> = vec![];
    let mut add = |name: &str, cfg: Config, init: Vec<Op>, alpha: Vec<Op>, depth: usize, eager: bool| {
        ps.push(FProg { name: name.into(), cfg, init, alpha, depth, eager, kinds: (!q) as u8 });
    };
    let d = t.pick(2, 3);
    add("kv", cfg(BIG, BIG), full.clone(), kv.clone(), d, false);
    // at the split threshold
    add("split", cfg(80, BIG), full.clone(), kv.clone(), d, false);
    // a compaction is due
    add("compact", cfg(BIG, 20), waste.clone(), kv.clone(), d, false);
    add("compact-eager", cfg(BIG, 20), waste.clone(), kv.clone(), d, true);
    add("both", cfg(100, 20), waste.clone(), kv.clone(), d, true);
    add("both-lazy", cfg(100, 20), waste.clone(), kv.clone(), d, false);
    // two small shards that can be merged
    let mut small = full.clone();
    small.push(Set(b("zz"), v(b'x')));
    small.push(Remove(b("zz")));
    small.push(Quiesce);
    add("merge", cfg(90, BIG), small.clone(), vec![Merge(40_000), Set(a.clone(), v(b'1')), Remove(c.clone()), Clear, Set(b("new"), v(b'3'))], d, false);
    add("clear", cfg(100, 20), waste.clone(), vec![Clear, Set(a.clone(), v(b'1')), Set(c.clone(), v(b'2')), Flush], t.pick(2, 3), false);
    let mut tr = cfg(100, 20);
    tr.truncate_up = true;
    add("truncate_up", tr, waste.clone(), vec![Set(c.clone(), v(b'1')), Set(b("new"), v(b'2')), Clear], d, true);
    // lists
    let x = |s: &str| b(s);
    let li = vec![LSet(l.clone(), x("x"), v(b'1')), LSet(l.clone(), x("y"), v(b'2')), LSet(l.clone(), x("z"), v(b'3'))];
    let la = vec![
        LSet(l.clone(), x("w"), v(b'4')),
        LSet(l.clone(), x("y"), v(b'5')),
        LGoc(l.clone(), x("v"), v(b'6')),
        LReplace(l.clone(), x("x"), v(b'7'), None),
        LRemove(l.clone(), x("x")),
        LRemove(l.clone(), x("y")),
        LPopH(l.clone()),
        LPopT(l.clone()),
        LIter(l.clone()),
        LDiscard(l.clone()),
    ];
    add("list", cfg(BIG, BIG), li.clone(), la.clone(), t.pick(1, 2), false);
    add("list-new", cfg(BIG, BIG), vec![], la.clone(), t.pick(1, 2), false);
    add("list-both", cfg(150, 40), li.clone(), la.clone(), t.pick(1, 2), true);
    let qi = vec![QPushT(qn.clone(), v(b'1')), QPushT(qn.clone(), v(b'2')), QPushT(qn.clone(), v(b'3'))];
    let qa = vec![
        QPushT(qn.clone(), v(b'4')),
        QPushH(qn.clone(), v(b'5')),
        QExt(qn.clone(), vec![v(b'6'), v(b'7')]),
        QPopH(qn.clone()),
        QPopT(qn.clone()),
        QRemove(qn.clone(), Idx::Nth(0)),
        QRemove(qn.clone(), Idx::Nth(1)),
        QRemove(qn.clone(), Idx::Nth(2)),
        QIter(qn.clone()),
        QDiscard(qn.clone()),
    ];
    add("queue", cfg(BIG, BIG), qi.clone(), qa.clone(), t.pick(1, 2), false);
    add("queue-new", cfg(BIG, BIG), vec![], qa[..3].to_vec(), 2, false);
    add("queue-both", cfg(150, 40), qi.clone(), qa.clone(), t.pick(1, 2), true);
    // big values
    let (bk, bn) = (b("B"), b("N"));
    let bi = vec![BSet(bk.clone(), val(b'o', 70_000)), BSet(bn.clone(), val(b'n', 30)), Set(bk.clone(), v(b'x'))];
    let ba = vec![BSet(bk.clone(), val(b'p', 140_000)), BSet(bk.clone(), val(b'q', 50)), BRemove(bk.clone()), BGet(bk.clone()), BSet(b("new"), val(b'r', 70_000))];
    let mut add = |name: &str, cfg: Config, init: Vec<Op>, alpha: Vec<Op>, depth: usize, eager: bool| {
        ps.push(FProg { name: name.into(), cfg, init, alpha, depth, eager, kinds: (!q) as u8 });
    };
    add("big", cfg(BIG, BIG), bi.clone(), ba.clone(), t.pick(1, 2), false);
    add("big-new", cfg(BIG, BIG), vec![], ba.clone(), 2, false);
    add("big-both", cfg(200_000, 50_000), bi.clone(), ba.clone(), t.pick(1, 2), true);
    let mut us = units(ps, if q { 2 } else { 6 });

    // a merge of shards of which one has a compaction that failed
    let c2 = find_key("B", |s, r, _| s >= 0xc000 && r == 2);
    for (nm, k, k2) in [("top", &c, &c2), ("bottom", &a, &a2)] {
        let init = vec![Set(a.clone(), v(b'x')), Set(c.clone(), v(b'x')), Set(a2.clone(), v(b'x')), Set(c2.clone(), v(b'x')), Set(k.clone(), v(b'w')), Quiesce];
        let p = Arc::new(FProg { name: format!("merge-failed-{nm}"), cfg: cfg(90, 20), init, alpha: vec![], depth: 0, eager: false, kinds: 0 });
        for x in [Remove(k.clone()), Remove(k2.clone()), Get(k.clone())] {
            let ops = vec![Set(k.clone(), v(b'1')), Quiesce, x, Merge(40_000), Merge(40_000), Set(b("new"), v(b'2'))];
            let p = p.clone();
            us.push(unit(format!("{} {}, every file operation failing", p.name, pops(&ops)), move |w| run_one(w, &p, &ops)));
        }
    }

    // a failed compaction of a shard that is made anew after clearing, by filling the store until it splits
    for k in [&a, &c] {
        let full: Vec<Op> = [&a, &c, &a2, &c2].iter().map(|k| Set((*k).clone(), v(b'x'))).collect();
        let mut init = full.clone();
        init.extend([Set(k.clone(), v(b'w')), Quiesce]);
        let p = Arc::new(FProg { name: "clear-failed".into(), cfg: cfg(90, 20), init, alpha: vec![], depth: 0, eager: false, kinds: 0 });
        let mut ops = vec![Set(k.clone(), v(b'1')), Quiesce, Clear];
        ops.extend([&a, &c, &a2, &c2].iter().map(|k| Set((*k).clone(), v(b'2'))));
        us.push(unit(format!("{} {}, every file operation failing", p.name, pops(&ops)), move |w| run_one(w, &p, &ops)));
    }

    // several threads at once
    us.extend(concurrent(t, &a, &a2, &c));

    // opening
    let mut clr = |c: Config| {
        let mut c = c;
        c.clear_on_unsupported_version = true;
        c
    };
    let sp = vec![Set(a.clone(), v(b'x')), Set(a2.clone(), v(b'x')), Set(c.clone(), v(b'x')), Set(b("new"), v(b'3'))];
    let cp = vec![Set(a.clone(), v(b'x')), Set(a2.clone(), v(b'x')), Set(c.clone(), v(b'w')), Set(c.clone(), v(b'x')), Set(c.clone(), v(b'y')), Quiesce];
    let mg: Vec<Op> = small.iter().cloned().chain([Merge(40_000)]).collect();
    let cl: Vec<Op> = sp.iter().cloned().chain([Clear]).collect();
    for (n, cf, ops, from) in [
        ("split", cfg(80, BIG), sp.clone(), 3),
        ("compact", cfg(BIG, 20), cp.clone(), 4),
        ("merge", cfg(90, BIG), mg, small.len()),
        ("clear", cfg(80, BIG), cl, 4),
        ("create", wide(3), vec![Set(a.clone(), v(b'x'))], 0),
    ] {
        us.extend(open_units(&format!("open-{n}"), cf.clone(), cf.clone(), ops.clone(), from, false, true));
        us.extend(open_units(&format!("open-{n}-clearing"), cf.clone(), clr(cf.clone()), ops.clone(), from, false, !q));
    }
    let mut st = cp[..5].to_vec();
    st.extend([Quiesce, Set(a.clone(), v(b'1')), Remove(a2.clone()), Set(c.clone(), v(b'2'))]);
    us.extend(stuck_units("open-stuck", cfg(BIG, 20), st, 8));
    us
}
/// The store is written to after the fault: nothing else may change.
fn used(db: &drv::Db, m: &M, _: &Config) -> Result<(), String> {
    let all = |when: &str| -> Result<(), String> {
        let go = |op: Op, want: Res| {
            let r = ex(db, &op, &[]);
            if r == want {
                Ok(())
            } else {
                Err(format!("{when}, {} returned {} instead of {}", pop(&op), pres(&r), pres(&want)))
            }
        };
        for (k, v) in &m.kv {
            go(Get(k.clone()), Res::Opt(Some(v.clone())))?;
        }
        for (l, v) in &m.lists {
            go(LIter(l.clone()), Res::KVs(v.clone()))?;
        }
        for (q, v) in &m.queues {
            go(QIter(q.clone()), Res::IVs(v.iter().cloned().collect()))?;
        }
        Ok(())
    };
    all("right after the fault")?;
    for k in ["~1", "~2"] {
        for op in [Set(b(k), val(b'p', 24)), Set(b(k), val(b'q', 24)), Remove(b(k))] {
            let r = ex(db, &op, &[]);
            if matches!(r, Res::Err(_) | Res::Panic(_)) {
                return Err(format!("once the fault was gone, {} returned {}", pop(&op), pres(&r)));
            }
            all(&format!("after the fault and {}", pop(&op)))?;
        }
    }
    quiesce();
    all("after the fault, further writes and background work")
}

fn concurrent(t: Tier, a: &V, a2: &V, c: &V) -> Vec<Unit> {
    use crate::checks::{kp, scene};
    use crate::conc::{combos, seqs};
    let v = |x| val(x, 20);
    let al = vec![Set(a.clone(), v(b'1')), Set(a2.clone(), v(b'2')), Set(c.clone(), v(b'3')), Remove(a.clone()), Get(a2.clone()), Goc(a.clone(), v(b'4'))];
    let x = |k: &V, c| Set(k.clone(), v(c));
    let scenes = [
        scene("plain", cfg(BIG, BIG), vec![x(a, b'x')], true, false),
        scene("split", cfg(60, BIG), vec![x(a, b'x'), x(c, b'x')], true, true),
        scene("compact", cfg(BIG, 20), vec![x(c, b'x'), x(a, b'w'), x(a, b'x')], true, true),
        scene("compacting", cfg(BIG, 20), vec![x(c, b'x'), x(a, b'w'), x(a, b'x'), x(c, b'y')], false, true),
    ];
    let mut ps = vec![];
    let mut add = |pre: &str, s: &crate::checks::Scene, th: Vec<Vec<Op>>, bound| {
        let mut p = kp(t, pre, s, th, bound);
        p.visits = t.pick(if s.heavy { 2 } else { 6 }, 6);
        p.faults = true;
        p.post = Some(used);
        ps.push(p);
    };
    for s in &scenes {
        // compactions beside them multiply the schedules
        let n = if t == Tier::Thorough || !s.heavy || s.name == "split" { al.len() } else { 3 + s.settle as usize };
        for th in combos(&seqs(&al[..n], 1), 2) {
            add("faults-concurrent", s, th, t.pick(1, 2));
        }
    }
    let q = b("Q");
    let l = b("L");
    let ops = [
        (LSet(l.clone(), b("x"), v(b'1')), LSet(l.clone(), b("y"), v(b'2'))),
        (LPopH(l.clone()), LSet(l.clone(), b("x"), v(b'2'))),
        (QPushT(q.clone(), v(b'1')), QPushT(q.clone(), v(b'2'))),
        (QPopH(q.clone()), QPushT(q.clone(), v(b'2'))),
        (LSet(l.clone(), b("x"), v(b'1')), QPushT(q.clone(), v(b'2'))),
        (QPopT(q.clone()), Set(a.clone(), v(b'2'))),
    ];
    let init = vec![LSet(l.clone(), b("x"), v(b'8')), LSet(l.clone(), b("z"), v(b'7')), QPushT(q.clone(), v(b'8')), QPushT(q.clone(), v(b'9'))];
    for s in [scene("plain", cfg(BIG, BIG), init.clone(), true, true), scene("both", cfg(300, 60), init.clone(), true, true)] {
        for (x, y) in &ops {
            if s.name == "both" && t == Tier::Quick && matches!(x, LPopH(_) | QPopH(_)) {
                continue;
            }
            add("faults-concurrent-ns", &s, vec![vec![x.clone()], vec![y.clone()]], 1);
        }
    }
    crate::conc::units(ps, 1)
}
fn wide(n: usize) -> Config {
    let mut c = cfg(BIG, BIG);
    c.expected_number_of_keys = (n - 1) * 29491 + 10;
    c
}
#[allow(dead_code)]
pub fn unused(_: V) {}
