//! Files do not grow without bound: every cyclic repetition of bounded patterns of operations is run
//! until the directory is byte for byte what it was some repetitions earlier, with the space bounds
//! checked after every operation.
use crate::conc::{self, combos, seqs, KProg};
use crate::fw::*;
use crate::model::{pushed, M};
use crate::shapes::listing;
use crate::util::*;
use candystore::Config;
use drv::{Op, Res, St, V};
use mcrt::image::Image;
use mcrt::rt::Cfg;
use std::collections::BTreeMap;
use Op::*;

type Span = (u32, u32);

fn stats(db: &drv::Db) -> Result<St, String> {
    match ex(db, &Stats, &[]) {
        Res::Stats(s) => Ok(s),
        r => Err(format!("stats returned {}", pres(&r))),
    }
}
/// bytes of the entries, by shard selector
fn live(db: &drv::Db) -> Result<Vec<(u32, u64)>, String> {
    match mcrt::user(|| drv::raw_entries(db)).clone() {
        Res::KVs(v) => Ok(v.iter().map(|(k, v)| (ph(k).0, (k.len() + v.len()) as u64)).collect()),
        r => Err(format!("raw iteration returned {}", pres(&r))),
    }
}
fn within(l: &[(u32, u64)], s: Span) -> u64 {
    l.iter().filter(|x| s.0 <= x.0 && x.0 < s.1).map(|x| x.1).sum()
}

#[derive(Clone)]
pub struct Lim {
    /// length of a shard file with no entries
    pub header: u64,
    /// of the largest entry
    pub entry: u64,
    /// bytes that may be written while a compaction is under way
    pub during: u64,
}

/// The bounds on a store with no background work in progress.
pub fn bounds(dir: &str, db: &drv::Db, c: &Config, l: &Lim) -> Result<(Vec<Span>, Vec<(u32, u64)>), String> {
    let (spans, other) = listing(dir);
    if !other.is_empty() {
        return Err(format!("superfluous files: {other:?}"));
    }
    let lv = live(db)?;
    let (max, thr) = (c.max_shard_size as u64, c.min_compaction_threashold as u64);
    let mut occ = 0;
    for s in &spans {
        let len = std::fs::metadata(format!("{dir}/shard_{:04x}-{:04x}", s.0, s.1)).map_err(|e| e.to_string())?.len();
        let used = len.saturating_sub(l.header);
        let alive = within(&lv, *s);
        let mut lim = max + l.entry + l.during;
        if s.1 - s.0 == 1 {
            // it cannot be split, only compacted
            lim = lim.max(alive + thr + 2 * l.entry + l.during);
        }
        if used > lim {
            return Err(format!("shard {:04x}-{:04x} takes {used} bytes, {alive} of them live; at most {lim} expected", s.0, s.1));
        }
        occ += used;
    }
    let st = stats(db)?;
    if st.occupied as u64 > occ {
        return Err(format!("{} bytes are said to be occupied, the files have {occ}", st.occupied));
    }
    Ok((spans, lv))
}

/// After `key` (of `sz` bytes with its value) was written: waste is bounded, splits were necessary.
fn written(dir: &str, c: &Config, l: &Lim, sel: u32, before: &[Span], lv0: &[(u32, u64)], lv: &[(u32, u64)]) -> Result<(), String> {
    let (max, thr) = (c.max_shard_size as u64, c.min_compaction_threashold as u64);
    let (spans, _) = listing(dir);
    let Some(s) = spans.iter().find(|s| s.0 <= sel && sel < s.1) else { return Err("no shard for the key".into()) };
    if !c.truncate_up {
        let used = std::fs::metadata(format!("{dir}/shard_{:04x}-{:04x}", s.0, s.1)).map_err(|e| e.to_string())?.len().saturating_sub(l.header);
        let alive = within(lv, *s);
        if used.saturating_sub(alive) > thr + l.entry + l.during {
            return Err(format!("shard {:04x}-{:04x} has just been written to and wastes {} of its {used} bytes, the threshold being {thr}", s.0, s.1, used - alive));
        }
    }
    if spans.len() > before.len() {
        let Some(p) = before.iter().find(|p| p.0 <= sel && sel < p.1) else { return Err("no shard for the key".into()) };
        if within(lv0, *p) + thr + l.entry + l.during <= max {
            return Err(format!("shard {:04x}-{:04x} with {} live bytes was split although the maximum is {max} and the threshold {thr}", p.0, p.1, within(lv0, *p)));
        }
    }
    Ok(())
}

pub struct Cyc {
    pub name: String,
    pub cfg: Config,
    pub pre: Vec<Op>,
    pub cycle: Vec<Op>,
    /// background work finishes after each operation, not after each repetition
    pub eager: bool,
    pub max: usize,
    /// the directory must eventually be what it was; otherwise only the numbers
    pub exact: bool,
    pub entry: u64,
}

enum End {
    Repeats(usize, usize),
    Open,
}

fn run(w: &mut Wk, p: &Cyc, header: u64) -> Result<End, String> {
    let dir = w.dir(0);
    let d2 = dir.clone();
    let (r, out) = w.session(Cfg { dir: dir.clone(), max_steps: 400_000_000, ..Default::default() }, || -> Result<End, String> {
        let db = open(&d2, &p.cfg)?;
        let r = cycles(&d2, p, header, db);
        r
    });
    let r = r?;
    if !out.panics.is_empty() {
        return Err(format!("panic in a background thread: {:?}", out.panics));
    }
    Ok(r)
}
fn cycles(dir: &str, p: &Cyc, header: u64, db: drv::Db) -> Result<End, String> {
    let mut db = Some(db);
    let mut m = M::default();
    let mut idxs = vec![];
    let lim = Lim { header, entry: p.entry, during: if p.eager { 0 } else { p.entry * 4 * (p.cycle.len() as u64 + 1) } };
    let mut seen: BTreeMap<(u64, u64), usize> = BTreeMap::new();
    let mut count: Option<(usize, usize)> = None;
    let r = (|| {
        for n in 0..=p.max {
            for (i, op) in (if n == 0 { &p.pre } else { &p.cycle }).iter().enumerate() {
                let at = |e: String| if n == 0 { format!("first, op {i}: {e}") } else { format!("repetition {n}, op {i} {}: {e}", pop(op)) };
                if *op == Reopen {
                    close(db.take().unwrap());
                    db = Some(open(dir, &p.cfg).map_err(at)?);
                    continue;
                }
                let d = db.as_ref().unwrap();
                let before = p.eager.then(|| Ok::<_, String>((listing(dir).0, live(d)?))).transpose().map_err(at)?;
                let r = ex(d, op, &idxs);
                pushed(op, &r, &mut idxs);
                if !m.accept(op, &r, &idxs) {
                    return Err(at(format!("returned {}", pres(&r))));
                }
                if let Some((s0, l0)) = before {
                    quiesce();
                    let (_, l1) = bounds(dir, d, &p.cfg, &lim).map_err(at)?;
                    let wrote = match (op, &r) {
                        (Set(k, v), Res::Prev(o)) if o != v => Some(k),
                        (Set(k, _), Res::Created(_)) => Some(k),
                        (Replace(k, v, _), Res::Prev(o)) if o != v => Some(k),
                        _ => None,
                    };
                    if let Some(k) = wrote {
                        written(dir, &p.cfg, &lim, ph(&user_key(k)).0, &s0, &l0, &l1).map_err(at)?;
                    }
                }
            }
            quiesce();
            let d = db.as_ref().unwrap();
            let (spans, lv) = bounds(dir, d, &p.cfg, &lim).map_err(|e| format!("after repetition {n}: {e}"))?;
            if n > 0 {
                // as many entries as after the first repetition
                if n > 1 && count.map_or(false, |c| c.0 != lv.len()) {
                    return Err(format!("after repetition {n} there are {} entries, one repetition earlier there were {}", lv.len(), count.unwrap().0));
                }
                count = Some((lv.len(), spans.len()));
                if p.exact {
                    let h = (Image::from_dir(dir, 0).hash(), hash_s(&format!("{m:?}")));
                    if let Some(o) = seen.insert(h, n) {
                        return Ok(End::Repeats(o, n));
                    }
                }
            }
        }
        Ok(End::Open)
    })();
    if let Some(d) = db {
        close(d);
    }
    r
}

fn nth(al: &[Op], mut n: usize, len: usize) -> Vec<Op> {
    (0..len)
        .map(|_| {
            let o = al[n % al.len()].clone();
            n /= al.len();
            o
        })
        .collect()
}

/// after concurrent writers: once everything was written again, the bounds hold
fn settle(db: &drv::Db, m: &M, c: &Config) -> Result<(), String> {
    let dir = mcrt::rt::rt().cfg.dir.clone();
    let header = *HDR.get().unwrap_or(&0);
    let lim = Lim { header, entry: 60, during: 240 };
    bounds(&dir, db, c, &lim)?;
    let orig = m.clone();
    let mut m = m.clone();
    for round in 0..2u8 {
        for k in m.clone().kv.keys() {
            let op = Set(k.clone(), val(b'p' + round, 20));
            let before = (listing(&dir).0, live(db)?);
            let r = ex(db, &op, &[]);
            if !m.accept(&op, &r, &[]) {
                return Err(format!("{} returned {}", pop(&op), pres(&r)));
            }
            quiesce();
            let (_, l1) = bounds(&dir, db, c, &lim)?;
            if round == 1 {
                written(&dir, c, &Lim { during: 0, ..lim.clone() }, ph(&user_key(k)).0, &before.0, &before.1, &l1)?;
            }
        }
    }
    for (k, v) in &orig.kv {
        ex(db, &Set(k.clone(), v.clone()), &[]);
    }
    quiesce();
    Ok(())
}
static HDR: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
fn header(w: &mut Wk) -> Result<u64, String> {
    if let Some(h) = HDR.get() {
        return Ok(*h);
    }
    let c = cfg(BIG, BIG);
    let h = crate::crash::record(w, &c, &c, &[], false)?;
    let mut img = h.init_img.clone();
    h.log.iter().for_each(|e| img.apply(e));
    let f = img.names.iter().find(|n| n.0.starts_with("shard_")).map(|n| img.files[n.1].len).ok_or("a new store has no shard file")?;
    let _ = HDR.set(f);
    Ok(f)
}

fn cyc_units(t: Tier) -> Vec<Unit> {
    let q = t == Tier::Quick;
    // two keys of one half, one of the other
    let k: Vec<V> = vec![find_key("a", |s, _, _| s < 0x4000), find_key("b", |s, _, _| s < 0x4000), find_key("c", |s, _, _| s >= 0x8000)];
    let kv = vec![
        Set(k[0].clone(), val(b'1', 20)),
        Set(k[0].clone(), val(b'2', 20)),
        Set(k[0].clone(), val(b'3', 45)),
        Set(k[1].clone(), val(b'4', 20)),
        Set(k[2].clone(), val(b'5', 20)),
        Remove(k[0].clone()),
        Remove(k[1].clone()),
        Replace(k[1].clone(), val(b'6', 30), None),
        Goc(k[2].clone(), val(b'7', 20)),
        Remove(k[2].clone()),
    ];
    let mut kv2 = kv.clone();
    kv2.push(Reopen);
    let mut confs: Vec<(String, Config)> = vec![];
    for (max, thr) in [(200u32, 60u32), (200, 20), (100, 100), (60, 20), (1000, 100), (300, 150), (100, 1), (1000, 900)] {
        confs.push((format!("kv{max}/{thr}"), cfg(max, thr)));
    }
    // compaction never comes before splitting
    confs.push(("kv70/300".into(), cfg(70, 300)));
    let mut tr = cfg(200, 60);
    tr.truncate_up = true;
    confs.push(("kv-trunc".into(), tr));
    let mut us = vec![];
    for (name, c) in confs {
        for eager in [true, false] {
            for len in 1..=t.pick(3usize, 4) {
                let al = if len == 2 { &kv2 } else { &kv };
                let main = name == "kv200/60" || name == "kv60/20" || name == "kv-trunc";
                if q && len == 3 && !(main && eager) {
                    continue;
                }
                let total = al.len().pow(len as u32);
                let chunk = 50;
                for s in (0..total).step_by(chunk) {
                    let (name, c, al) = (name.clone(), c.clone(), al.clone());
                    let pre = vec![Set(k[1].clone(), val(b'i', 20)), Set(k[2].clone(), val(b'i', 20))];
                    us.push(unit(format!("{name}{} cycles {s}.. of {total} of length {len}", if eager { "/eager" } else { "" }), move |w| {
                        let h = match header(w) {
                            Ok(h) => h,
                            Err(e) => return viol("setup", e),
                        };
                        for n in s..(s + chunk).min(total) {
                            if w.out_of_time() {
                                break;
                            }
                            let p = Cyc { name: name.clone(), cfg: c.clone(), pre: pre.clone(), cycle: nth(&al, n, len), eager, max: 120, exact: true, entry: 60 };
                            one(w, &p, h)?;
                        }
                        Ok(())
                    }));
                }
            }
        }
    }
    // lists, queues and big values: internal names move on, so only the numbers repeat
    let (l, qn) = (b("L"), b("Q"));
    let v = |c: u8| val(c, 20);
    let lists = vec![
        LSet(l.clone(), b("x"), v(b'1')),
        LProm(l.clone(), b("x"), v(b'2')),
        LSet(l.clone(), b("y"), v(b'3')),
        LRemove(l.clone(), b("x")),
        LPopH(l.clone()),
        LPopT(l.clone()),
        LDiscard(l.clone()),
        LCompact(l.clone(), 0),
    ];
    let queues = vec![
        QPushT(qn.clone(), v(b'1')),
        QPushH(qn.clone(), v(b'2')),
        QPopH(qn.clone()),
        QPopT(qn.clone()),
        QExt(qn.clone(), vec![v(b'3'), v(b'4')]),
        QDiscard(qn.clone()),
        QRemove(qn.clone(), drv::Idx::Nth(0)),
        BSet(b("B"), val(b'z', 50)),
        BSet(b("B"), val(b'y', 40)),
        BRemove(b("B")),
    ];
    for (what, al) in [("list", lists), ("queue", queues)] {
        for (max, thr) in [(400u32, 60u32), (150, 40), (BIG, 100)] {
            for len in 2..=t.pick(3usize, 4) {
                let total = al.len().pow(len as u32);
                let chunk = 60;
                for s in (0..total).step_by(chunk) {
                    let al = al.clone();
                    us.push(unit(format!("{what}{max}/{thr} cycles {s}.. of {total} of length {len}"), move |w| {
                        let h = match header(w) {
                            Ok(h) => h,
                            Err(e) => return viol("setup", e),
                        };
                        for n in s..(s + chunk).min(total) {
                            if w.out_of_time() {
                                break;
                            }
                            let mut cycle = nth(&al, n, len);
                            // what is pushed is popped or discarded
                            cycle.push(if what == "list" { LDiscard(b("L")) } else { QDiscard(b("Q")) });
                            let p = Cyc { name: what.into(), cfg: cfg(max, thr), pre: vec![], cycle, eager: true, max: t.pick(8, 20), exact: false, entry: 120 };
                            one(w, &p, h)?;
                        }
                        Ok(())
                    }));
                }
            }
        }
    }
    us
}

fn one(w: &mut Wk, p: &Cyc, h: u64) -> Result<(), Viol> {
    let what = format!("[{}{}] first {} then over and over: {}", pcfg(&p.cfg), if p.eager { ",eager" } else { "" }, pops(&p.pre), pops(&p.cycle));
    w.what = what.clone();
    w.sample(|| what.clone());
    match run(w, p, h) {
        Err(e) => w.check(viol(format!("space:{:016x}", hash_s(&what)), format!("{what} => {e}"))),
        Ok(End::Repeats(a, z)) => {
            w.state(hash_s(&format!("{what}{a}{z}")));
            w.add("cycles_proven_periodic", 1);
            w.add("repetitions", z as u64);
            Ok(())
        }
        Ok(End::Open) => {
            w.state(hash_s(&what));
            w.add("repetitions", p.max as u64);
            if p.exact {
                w.add("cycles_not_seen_to_repeat", 1);
                w.incomplete();
            } else {
                w.add("cycles_bounded", 1);
            }
            Ok(())
        }
    }
}

pub fn c28(t: Tier) -> Vec<Unit> {
    let mut us = cyc_units(t);
    let a = find_key("a", |s, _, _| s < 0x4000);
    let c = find_key("b", |s, _, _| s >= 0x8000);
    let mut ps = vec![];
    for (max, thr) in [(150u32, 40u32), (BIG, 30)] {
        let mut al = vec![Set(a.clone(), val(b'1', 20)), Set(c.clone(), val(b'3', 20)), Remove(a.clone())];
        if t != Tier::Quick {
            al.push(Set(a.clone(), val(b'2', 40)));
        }
        for th in combos(&seqs(&al, t.pick(2, 3)), 2) {
            let mut p = KProg::new(&format!("space{max}"), cfg(max, thr), vec![Set(a.clone(), val(b'x', 20)), Set(c.clone(), val(b'x', 20)), Set(a.clone(), val(b'y', 20))], th, 1);
            p.settle = false;
            p.post = Some(settle);
            p.max_execs = 4000;
            ps.push(p);
        }
    }
    let chunk = 2;
    let conc = conc::units(ps, chunk);
    for u in conc {
        let run = u.run;
        us.push(unit(u.label, move |w| match header(w) {
            Ok(_) => run(w),
            Err(e) => viol("setup", e),
        }));
    }
    us
}
