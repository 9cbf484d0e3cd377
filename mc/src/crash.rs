//! Every crash point of a history: the recorded mutation log of one execution is cut after every
//! event (and inside every buffered write), the resulting directory is materialised, reopened with the
//! real code and compared with the states the reference model allows.
use crate::fw::*;
use crate::model::{pushed, short, Uni, M};
use crate::util::*;
use candystore::Config;
use drv::{Op, Res};
use mcrt::image::Image;
use mcrt::rt::Cfg;
use mcrt::{Ev, Set};
use std::sync::Arc;

#[derive(Clone)]
pub struct CProg {
    pub name: String,
    pub cfg: Config,
    pub init: Vec<Op>,
    pub alpha: Vec<Op>,
    pub depth: usize,
    pub eager: bool,
    /// how many further crashes during recovery
    pub nested: u32,
    /// explore crash points of the whole history, including the very first open
    pub from_start: bool,
    pub merge_after: bool,
    /// configuration from the first Reopen on, and for the recovery
    pub reopen_cfg: Option<Config>,
}
impl CProg {
    pub fn new(name: &str, cfg: Config, init: Vec<Op>, alpha: Vec<Op>, depth: usize) -> CProg {
        CProg { name: name.into(), cfg, init, alpha, depth, eager: false, nested: 0, from_start: false, merge_after: true, reopen_cfg: None }
    }
    pub fn eager(mut self) -> Self {
        self.eager = true;
        self.name += "/eager";
        self
    }
    pub fn nested(mut self, n: u32) -> Self {
        self.nested = n;
        self
    }
    pub fn whole(mut self) -> Self {
        self.from_start = true;
        self
    }
}

pub struct Hist {
    pub log: Vec<Ev>,
    pub init_img: Image,
    /// model before op i (len = ops+1)
    pub before: Vec<M>,
    /// allowed states while op i is in flight
    pub flight: Vec<Vec<M>>,
    pub uni: Uni,
}

/// Execute `ops` with the mutation log on.
pub fn record(w: &mut Wk, cfg: &Config, cfg2: &Config, ops: &[Op], eager: bool) -> Result<Hist, String> {
    record_fault(w, cfg, cfg2, ops, eager, None)
}
/// As [record], with a file-system call failing; an error if an operation returned one.
pub fn record_fault(w: &mut Wk, cfg: &Config, cfg2: &Config, ops: &[Op], eager: bool, fault: Option<mcrt::rt::Fault>) -> Result<Hist, String> {
    let dir = w.dir(0);
    let d2 = dir.clone();
    let (r, out) = w.session(Cfg { dir: dir.clone(), log: true, fault, ..Default::default() }, || {
        let mut m = M::default();
        let mut before = vec![m.clone()];
        let mut flight = vec![];
        let mut idxs = vec![];
        let mut db = open(&d2, cfg)?;
        for (i, op) in ops.iter().enumerate() {
            flight.push(m.in_flight(op, &idxs));
            mcrt::rt::mark(1, i as u32);
            let mut bad = None;
            match op {
                Op::Reopen => {
                    close(db);
                    db = open(&d2, cfg2)?;
                }
                Op::Quiesce => quiesce(),
                _ => {
                    let r = ex(&db, op, &idxs);
                    pushed(op, &r, &mut idxs);
                    if !m.accept(op, &r, &idxs) {
                        bad = Some(format!("op {i} {} returned {} (no crash involved)", pop(op), pres(&r)));
                    }
                }
            }
            mcrt::rt::mark(2, i as u32);
            before.push(m.clone());
            if let Some(b) = bad {
                close(db);
                return Err(b);
            }
            if eager {
                quiesce();
            }
        }
        close(db);
        Ok((before, flight))
    });
    let (before, flight) = r?;
    if !out.panics.is_empty() {
        return Err(format!("panic in a background thread: {:?}", out.panics));
    }
    Ok(Hist { log: out.log, init_img: Image::default(), before, flight, uni: Uni::of(ops) })
}

/// Ops that must behave normally after recovery (with the model state they start from).
pub fn follow_up(db: &drv::Db, m: &mut M, uni: &Uni, merge: bool) -> Result<(), String> {
    let mut idxs = vec![];
    let mut go = |m: &mut M, op: Op| -> Result<Res, String> {
        let b = m.clone();
        let r = ex(db, &op, &idxs);
        pushed(&op, &r, &mut idxs);
        if !m.accept(&op, &r, &idxs) {
            return Err(format!("after recovery {} returned {} in state {}", pop(&op), pres(&r), short(&b)));
        }
        Ok(r)
    };
    if merge {
        go(m, Op::Merge(40_000))?;
    }
    for k in &uni.kv {
        go(m, Op::Remove(k.clone()))?;
    }
    if merge {
        go(m, Op::Merge(40_000))?;
    }
    for (i, k) in uni.kv.iter().enumerate() {
        if i % 2 == 0 {
            go(m, Op::Set(k.clone(), val(b'R', 20)))?;
        } else {
            go(m, Op::Goc(k.clone(), val(b'S', 20)))?;
            go(m, Op::Replace(k.clone(), val(b'R', 20), None))?;
        }
    }
    for k in &uni.typed {
        go(m, Op::TSet(*k, "R".into()))?;
    }
    for (l, items) in &uni.lists {
        let fresh = b("fresh");
        go(m, Op::LSet(l.clone(), fresh.clone(), val(b'R', 12)))?;
        go(m, Op::LPopH(l.clone()))?;
        for (i, k) in items.iter().enumerate() {
            if i % 2 == 0 {
                go(m, Op::LRemove(l.clone(), k.clone()))?;
            }
            go(m, Op::LSet(l.clone(), k.clone(), val(b'S', 12)))?;
        }
        go(m, Op::LIter(l.clone()))?;
        go(m, Op::LPopT(l.clone()))?;
        go(m, Op::LRemove(l.clone(), fresh))?;
        go(m, Op::LIterB(l.clone()))?;
    }
    for q in &uni.queues {
        go(m, Op::QPushT(q.clone(), val(b'R', 12)))?;
        go(m, Op::QPushH(q.clone(), val(b'S', 12)))?;
        go(m, Op::QIter(q.clone()))?;
        go(m, Op::QRemove(q.clone(), drv::Idx::Nth(0)))?;
        go(m, Op::QPopH(q.clone()))?;
        go(m, Op::QPopT(q.clone()))?;
        go(m, Op::QExt(q.clone(), vec![val(b'T', 12), val(b'U', 12)]))?;
        go(m, Op::QIterB(q.clone()))?;
    }
    for k in &uni.big {
        if !m.big.contains_key(k) {
            // something empty may have been left behind
            let r = ex(db, &Op::BRemove(k.clone()), &[]);
            if !matches!(r, Res::Bool(_)) {
                return Err(format!("after recovery {} returned {}", pop(&Op::BRemove(k.clone())), pres(&r)));
            }
            go(m, Op::BGet(k.clone()))?;
        }
        let large = m.big.get(k).map_or(false, |v| v.len() > candystore::MAX_VALUE_SIZE);
        go(m, Op::BSet(k.clone(), val(b'R', 50)))?;
        go(m, Op::BGet(k.clone()))?;
        if large {
            go(m, Op::BRemove(k.clone()))?;
            go(m, Op::BGet(k.clone()))?;
            go(m, Op::BSet(k.clone(), val(b'S', candystore::MAX_VALUE_SIZE + 9)))?;
            go(m, Op::BGet(k.clone()))?;
        }
    }
    go(m, Op::Stats)?;
    Ok(())
}

pub struct Ctx<'a> {
    pub cfg: &'a Config,
    pub uni: &'a Uni,
    pub merge: bool,
    pub exact: bool,
    pub whole: bool,
    /// the number of entries reported afterwards may exceed that stored by so many
    pub slack: Option<usize>,
    pub seen: Set<u64>,
    pub points: u64,
    pub checked: u64,
}

fn allowed_hash(a: &[&M]) -> u64 {
    let mut h = 5;
    for m in a {
        h = mcrt::mix(h, hash_m(m));
    }
    h
}

/// Reopen one crash image and check it.
pub fn check_image(w: &mut Wk, c: &mut Ctx, img: &Image, allowed: &[&M], nested: u32, level: usize, where_: &str) -> Result<(), String> {
    check_image_with(
        w,
        c,
        img,
        allowed_hash(allowed),
        &|m| allowed.iter().any(|a| a.same(m)),
        &|| allowed.iter().map(|m| short(m)).collect::<Vec<_>>().join(" | "),
        nested,
        level,
        where_,
    )
}

/// `akey` identifies what `ok` allows.
#[allow(clippy::too_many_arguments)]
/// What was in progress may have been counted without being stored, never the other way round.
fn count(db: &drv::Db, slack: Option<usize>, when: &str) -> Result<(), String> {
    let Some(slack) = slack else { return Ok(()) };
    quiesce();
    let (Res::Num(n), Res::Stats(s)) = (ex(db, &Op::RawCount, &[]), ex(db, &Op::Stats, &[])) else {
        return Err(format!("after {when}, counting the entries failed"));
    };
    let k = s.inserts as i64 - s.removals as i64;
    if k < n as i64 || k > (n + slack) as i64 {
        return Err(format!("after {when}, {n} entries are stored but the statistics say {} inserts and {} removals", s.inserts, s.removals));
    }
    Ok(())
}

pub fn check_image_with(
    w: &mut Wk,
    c: &mut Ctx,
    img: &Image,
    akey: u64,
    ok: &dyn Fn(&M) -> bool,
    descr: &dyn Fn() -> String,
    nested: u32,
    level: usize,
    where_: &str,
) -> Result<(), String> {
    c.points += 1;
    let key = mcrt::mix(mcrt::mix(img.hash(), akey), nested as u64);
    if !c.seen.insert(key) {
        return Ok(());
    }
    c.checked += 1;
    w.state(key);
    let dir = w.dir(1 + level);
    img.materialize(&dir);
    let d2 = dir.clone();
    let rec_log = if nested > 0 {
        // the recovery alone, recorded
        let (r, out) = w.session(Cfg { dir: dir.clone(), log: true, ..Default::default() }, || -> Result<(), String> {
            let db = open(&d2, c.cfg)?;
            close(db);
            Ok(())
        });
        r.map_err(|e| format!("{where_}: {e}"))?;
        wipe(&dir);
        img.materialize(&dir);
        Some(out.log)
    } else {
        None
    };
    let (cfg, uni, merge, exact, whole) = (c.cfg, c.uni, c.merge, c.exact, c.whole);
    let slack = c.slack.map(|n| n + 2 * level);
    // the closures only touch shared data; sessions run on another thread
    struct P<'a>(&'a dyn Fn(&M) -> bool, &'a dyn Fn() -> String);
    unsafe impl Send for P<'_> {}
    let pp = P(ok, descr);
    let (r, out) = w.session(Cfg { dir: dir.clone(), ..Default::default() }, move || -> Result<(), String> {
        let pp = &pp;
        let P(ok, descr) = pp;
        let db = open(&d2, cfg)?;
        let r = (|| {
            let o = obs(&db, uni, exact, whole)?;
            if !ok(&o.m) {
                return Err(format!("recovered contents {} are not among the allowed ones: {}", short(&o.m), descr()));
            }
            let mut m = o.m.clone();
            count(&db, slack, "recovery")?;
            follow_up(&db, &mut m, uni, merge)?;
            count(&db, slack, "using the recovered store")?;
            Ok(m)
        })();
        close(db);
        let m = r?;
        let db = open(&d2, cfg).map_err(|e| format!("second reopen: {e}"))?;
        let o = obs(&db, uni, exact, whole);
        close(db);
        let o = o.map_err(|e| format!("after using the recovered store and reopening: {e}"))?;
        if !m.same(&o.m) {
            return Err(format!("after using the recovered store and reopening: contents {} expected {}", short(&o.m), short(&m)));
        }
        Ok(())
    });
    r.map_err(|e| format!("{where_}: {e}"))?;
    if !out.panics.is_empty() {
        return Err(format!("{where_}: panic in a background thread: {:?}", out.panics));
    }
    if let Some(log) = rec_log {
        // ids of the recovery session follow name order of the image's files
        let mut base = Image::default();
        for (i, (n, f)) in img.names.iter().enumerate() {
            base.names.insert(n.clone(), i as u32);
            base.files.insert(i as u32, img.files[f].clone());
        }
        // every point of the recovery
        let mut img = base;
        for i in 0..=log.len() {
            check_image_with(w, c, &img, akey, ok, descr, nested - 1, level + 1, &format!("{where_} + second crash after event {i}/{}", log.len()))?;
            if let Some(e) = log.get(i) {
                img.apply(e);
            }
            if w.out_of_time() {
                return Ok(());
            }
        }
    }
    Ok(())
}

/// Check every prefix of `log` from event `from` on. `allowed(i)`: states allowed after i events.
pub fn cut(
    w: &mut Wk,
    c: &mut Ctx,
    mut img: Image,
    log: &[Ev],
    from: usize,
    allowed: &dyn Fn(usize) -> Vec<M>,
    nested: u32,
    level: usize,
    where_: &str,
) -> Result<(), String> {
    for i in 0..=log.len() {
        if i >= from {
            let a = allowed(i);
            let ar: Vec<&M> = a.iter().collect();
            check_image(w, c, &img, &ar, nested, level, &format!("{where_} after event {i}/{}", log.len()))?;
            if let Some(Ev::Write { fid, off, data }) = log.get(i) {
                if data.len() > 8 {
                    let mut t = img.clone();
                    t.apply(&Ev::Write { fid: *fid, off: *off, data: data[..data.len() / 2].to_vec() });
                    check_image(w, c, &t, &ar, nested, level, &format!("{where_} inside write event {i}"))?;
                }
            }
        }
        if let Some(e) = log.get(i) {
            img.apply(e);
        }
        if w.out_of_time() {
            return Ok(());
        }
    }
    Ok(())
}

pub fn explore_hist(w: &mut Wk, h: &Hist, cfg: &Config, from_op: Option<usize>, nested: u32, merge: bool, where_: &str) -> Result<(u64, u64), String> {
    // op in progress / completed after i events
    let mut st = vec![(0usize, false)];
    let mut cur = (0usize, false);
    let mut from = 0;
    for (i, e) in h.log.iter().enumerate() {
        match e {
            Ev::Mark(1, n) => {
                cur = (*n as usize, true);
                if Some(*n as usize) == from_op {
                    from = i;
                }
            }
            Ev::Mark(2, n) => cur = (*n as usize + 1, false),
            _ => {}
        }
        st.push(cur);
    }
    let mut c = Ctx { cfg, uni: &h.uni, merge, exact: false, whole: true, slack: Some(2), seen: Default::default(), points: 0, checked: 0 };
    let allowed = |i: usize| -> Vec<M> {
        let (op, fl) = st[i];
        if fl {
            h.flight[op].clone()
        } else {
            vec![h.before[op].clone()]
        }
    };
    let r = cut(w, &mut c, h.init_img.clone(), &h.log, from, &allowed, nested, 0, where_);
    w.add("crash_points", c.points);
    w.add("crash_states_checked", c.checked);
    r.map(|_| (c.points, c.checked))
}

pub fn run_one(w: &mut Wk, p: &CProg, ops: &[Op], last: Option<usize>) -> Result<(), Viol> {
    let what = format!("[{}{}] {}", pcfg(&p.cfg), if p.eager { ",eager" } else { "" }, pops(ops));
    w.what = what.clone();
    let r = (|| {
        let cfg2 = p.reopen_cfg.as_ref().unwrap_or(&p.cfg);
        let h = record(w, &p.cfg, cfg2, ops, p.eager)?;
        // the log replayed into an image must equal the directory the store left behind
        let mut full = h.init_img.clone();
        for e in &h.log {
            full.apply(e);
        }
        let real = Image::from_dir(&w.keep_dir(0), 0);
        if full.hash() != real.hash() {
            mcrt::rt::fatal("nondeterminism", "the replayed log does not reproduce the directory");
        }
        w.add("logs_validated", 1);
        explore_hist(w, &h, cfg2, last, p.nested, p.merge_after, "crash")
    })();
    if let Err(e) = r {
        let (k, _) = e.split_once(": ").unwrap_or((&e, ""));
        let _ = k;
        w.check(viol(format!("{}:{:016x}", p.name, hash_s(&what)), format!("{what} => {e}")))?;
    }
    Ok(())
}

pub fn units(progs: Vec<CProg>, chunk: u64) -> Vec<Unit> {
    let mut us = vec![];
    for p in progs {
        let sp = crate::seq::Prog::new(&p.name, p.cfg.clone(), vec![], p.alpha.clone(), p.depth);
        let total = sp.total();
        let (p, sp) = (Arc::new(p), Arc::new(sp));
        let mut s = if p.from_start || p.depth == 0 { 0 } else { 1 };
        while s < total {
            let e = (s + chunk).min(total);
            let (p, sp) = (p.clone(), sp.clone());
            us.push(unit(format!("{} sequences {s}..{e} of {total}, every crash point", p.name), move |w| {
                for n in s..e {
                    if w.out_of_time() {
                        break;
                    }
                    let mut ops = p.init.clone();
                    ops.extend(sp.nth(n));
                    if n + 1 == total {
                        w.sample(|| format!("every crash point of the last operation of: {}", pops(&ops)));
                    }
                    let last = if p.from_start { None } else { Some(ops.len() - 1) };
                    run_one(w, &p, &ops, last)?;
                }
                Ok(())
            }));
            s = e;
        }
    }
    us
}
