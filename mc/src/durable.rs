//! Power failures: everything that was not explicitly synced to disk is lost, while creating, renaming and
//! removing files takes effect at once and in order.
use crate::{crash, faults};
use crate::fw::*;
use crate::model::{short, Uni, M};
use crate::util::*;
use candystore::Config;
use drv::{Idx, Op, V};
use mcrt::image::{FileImg, Image};
use mcrt::rt::{Cfg, Fault, FaultKind};
use mcrt::{Ev, Map};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use Op::*;

/// A directory and what of it is on disk.
#[derive(Clone, Default)]
pub struct Dur {
    pub img: Image,
    pub disk: Map<u32, FileImg>,
}
impl Dur {
    pub fn apply(&mut self, e: &Ev) {
        self.img.apply(e);
        if let Ev::Sync { fid } = e {
            if let Some(f) = self.img.files.get(fid) {
                self.disk.insert(*fid, f.clone());
            }
        }
    }
    /// What is left after losing everything unsynced (except that of the file `keep`).
    pub fn cut(&self, keep: Option<u32>) -> Image {
        let mut o = Image::default();
        for (n, f) in &self.img.names {
            o.names.insert(n.clone(), *f);
            let c = if keep == Some(*f) { self.img.files[f].clone() } else { self.disk.get(f).cloned().unwrap_or_default() };
            o.files.insert(*f, c);
        }
        o
    }
    pub fn cuts(&self, one: bool) -> Vec<(Image, String)> {
        let mut v = vec![(self.cut(None), String::new())];
        if one {
            for (n, f) in &self.img.names {
                v.push((self.cut(Some(*f)), format!(" except that of {n}")));
            }
        }
        v
    }
    fn of(img: &Image) -> Dur {
        // ids of a new session follow the order of names
        let mut d = Dur::default();
        for (i, (n, f)) in img.names.iter().enumerate() {
            d.img.names.insert(n.clone(), i as u32);
            d.img.files.insert(i as u32, img.files[f].clone());
            d.disk.insert(i as u32, img.files[f].clone());
        }
        d
    }
}

/// The states each key may be in; collections modified since the flush are not judged.
#[derive(Default)]
struct Allow {
    kv: BTreeMap<V, BTreeSet<Option<V>>>,
    typed: BTreeMap<u32, BTreeSet<Option<V>>>,
    big: BTreeMap<V, BTreeSet<Option<V>>>,
    base: M,
    uni: Uni,
    whole: bool,
}
impl Allow {
    fn of<'a>(uni: &Uni, base: &M, states: impl Iterator<Item = &'a M> + Clone) -> Allow {
        let mut a = Allow { base: base.clone(), uni: uni.clone(), whole: true, ..Default::default() };
        for k in &uni.kv {
            a.kv.insert(k.clone(), states.clone().map(|m| m.kv.get(k).cloned()).collect());
        }
        for k in &uni.typed {
            a.typed.insert(*k, states.clone().map(|m| m.typed.get(k).cloned()).collect());
        }
        // a big item consists of several entries
        a.uni.big.retain(|k| states.clone().all(|m| m.big.get(k) == base.big.get(k)));
        a.uni.lists.retain(|k, _| states.clone().all(|m| m.lists.get(k) == base.lists.get(k)));
        a.uni.queues.retain(|k| states.clone().all(|m| m.queues.get(k) == base.queues.get(k)));
        a.whole = a.uni.big.len() == uni.big.len() && a.uni.lists.len() == uni.lists.len() && a.uni.queues.len() == uni.queues.len();
        for k in &a.uni.big {
            a.big.insert(k.clone(), [base.big.get(k).cloned()].into());
        }
        a
    }
    fn ok(&self, m: &M) -> bool {
        self.kv.iter().all(|(k, s)| s.contains(&m.kv.get(k).cloned()))
            && self.typed.iter().all(|(k, s)| s.contains(&m.typed.get(k).cloned()))
            && self.big.iter().all(|(k, s)| s.contains(&m.big.get(k).cloned()))
            && self.uni.lists.keys().all(|l| m.lists.get(l) == self.base.lists.get(l))
            && self.uni.queues.iter().all(|q| m.queues.get(q) == self.base.queues.get(q))
    }
    fn key(&self) -> u64 {
        hash_s(&format!("{:?}{:?}{:?}{:?}", self.kv, self.typed, self.big, self.uni))
    }
    fn descr(&self) -> String {
        format!("flushed: {}; {:?}", short(&self.base), self.kv.iter().map(|(k, s)| format!("{} in {:?}", String::from_utf8_lossy(k), s.iter().map(|v| v.as_ref().map(|v| String::from_utf8_lossy(v).to_string())).collect::<Vec<_>>())).collect::<Vec<_>>())
    }
}

fn lost(w: &mut Wk, cfg: &Config, seen: &mut mcrt::Set<u64>, img: &Image, a: &Allow, again: bool, level: usize, where_: &str, n: &mut (u64, u64)) -> Result<(), String> {
    n.0 += 1;
    if !seen.insert(mcrt::mix(img.hash(), a.key())) {
        return Ok(());
    }
    let mut c = crash::Ctx { cfg, uni: &a.uni, merge: true, exact: false, whole: a.whole, slack: None, seen: Default::default(), points: 0, checked: 0 };
    crash::check_image_with(w, &mut c, img, a.key(), &|m| a.ok(m), &|| a.descr(), 0, level, where_)?;
    n.1 += c.checked;
    if again {
        let dir = w.dir(1 + level);
        img.materialize(&dir);
        let d2 = dir.clone();
        let (r, out) = w.session(Cfg { dir, log: true, ..Default::default() }, || -> Result<(), String> {
            close(open(&d2, cfg)?);
            Ok(())
        });
        r.map_err(|e| format!("{where_}: {e}"))?;
        let mut d = Dur::of(img);
        for (i, e) in out.log.iter().enumerate() {
            d.apply(e);
            for (im, ex) in d.cuts(false) {
                lost(w, cfg, seen, &im, a, false, level + 1, &format!("{where_} + again{ex} after event {i} of the recovery"), n)?;
            }
        }
    }
    Ok(())
}

#[derive(Clone)]
pub struct DProg {
    pub name: String,
    pub cfg: Config,
    pub init: Vec<Op>,
    pub alpha: Vec<Op>,
    pub depth: usize,
    pub eager: bool,
    pub one: bool,
    /// every acknowledged operation is durable at once (flush aggregation)
    pub acked: bool,
    /// with each file operation of background compactions failing once
    pub faults: bool,
}

/// Every file operation that can fail without an operation failing (those of background compactions).
fn run_faults(w: &mut Wk, p: &DProg, ops: &[Op]) -> Result<(), Viol> {
    w.what = format!("[{}{}] {}", pcfg(&p.cfg), if p.eager { ",eager" } else { "" }, pops(ops));
    let (n0, names) = match faults::names(w, &p.cfg, ops, p.eager) {
        Ok(n) => n,
        Err(e) => return w.check(viol(format!("{}:{:016x}", p.name, hash_s(&w.what)), e)),
    };
    for at in n0 + 1..=names.len() {
        let f = Fault { thr: None, at: at as u64, kind: FaultKind::Err(libc::EIO), persist: false };
        if w.out_of_time() {
            break;
        }
        run_with(w, p, ops, Some((f, &names[at - 1])))?;
    }
    Ok(())
}

fn run_one(w: &mut Wk, p: &DProg, ops: &[Op]) -> Result<(), Viol> {
    if p.faults {
        return run_faults(w, p, ops);
    }
    run_with(w, p, ops, None)
}

fn run_with(w: &mut Wk, p: &DProg, ops: &[Op], fault: Option<(Fault, &str)>) -> Result<(), Viol> {
    let mut what = format!("[{}{}] {}", pcfg(&p.cfg), if p.eager { ",eager" } else { "" }, pops(ops));
    if let Some((f, n)) = &fault {
        what += &format!(" with an I/O error at {n} (call {})", f.at);
    }
    w.what = what.clone();
    let last = ops.len() - 1;
    let mut n = (0, 0);
    let r = (|| {
        let h = match &fault {
            None => crash::record(w, &p.cfg, &p.cfg, ops, p.eager)?,
            Some((f, _)) => match crash::record_fault(w, &p.cfg, &p.cfg, ops, p.eager, Some(*f)) {
                Ok(h) => h,
                // an operation failed: that's C23's
                Err(_) => return Ok(()),
            },
        };
        let mut d = Dur::default();
        // the flush that completed last, the operations that completed, whether one is running
        let (mut fl, mut done, mut run) = (None, 0usize, false);
        let mut seen = Default::default();
        let mut on = fault.is_some();
        for i in 0..=h.log.len() {
            if on {
                let f = if p.acked { Some(done) } else { fl };
                if let Some(f) = f {
                    let states: Vec<&M> = h.before[f..=done].iter().chain(if run { h.flight[done].iter() } else { [].iter() }).collect();
                    let a = Allow::of(&h.uni, &h.before[f], states.iter().copied());
                    for (img, ex) in d.cuts(p.one) {
                        lost(w, &p.cfg, &mut seen, &img, &a, fault.is_none(), 0, &format!("unsynced data{ex} lost after event {i}/{}", h.log.len()), &mut n)?;
                    }
                }
            }
            match h.log.get(i) {
                Some(Ev::Mark(1, k)) => {
                    run = true;
                    on |= *k as usize == last;
                }
                Some(Ev::Mark(2, k)) => {
                    run = false;
                    done = *k as usize + 1;
                    if ops[*k as usize] == Flush {
                        // what precedes the flush
                        fl = Some(*k as usize);
                    }
                }
                Some(e) => d.apply(e),
                None => {}
            }
            if w.out_of_time() {
                break;
            }
        }
        Ok(())
    })();
    w.add("crash_points", n.0);
    w.add("crash_states_checked", n.1);
    match r {
        Err(e) => {
            let e: String = e;
            w.check(viol(format!("{}:{:016x}", p.name, hash_s(&what)), format!("{what} => {e}")))
        }
        Ok(()) => Ok(()),
    }
}

pub fn units(progs: Vec<DProg>, chunk: u64) -> Vec<Unit> {
    let mut us = vec![];
    for p in progs {
        let sp = crate::seq::Prog::new(&p.name, p.cfg.clone(), vec![], p.alpha.clone(), p.depth);
        let total = sp.total();
        let (p, sp) = (Arc::new(p), Arc::new(sp));
        let mut s = if p.init.is_empty() { 1 } else { 0 };
        while s < total {
            let e = (s + chunk).min(total);
            let (p, sp) = (p.clone(), sp.clone());
            us.push(unit(format!("{} sequences {s}..{e} of {total}, losing all unsynced data at every point", p.name), move |w| {
                for n in s..e {
                    if w.out_of_time() {
                        break;
                    }
                    let mut ops = p.init.clone();
                    ops.extend(sp.nth(n));
                    if n + 1 == total {
                        w.sample(|| format!("losing all unsynced data at every point of the last operation of: {}", pops(&ops)));
                    }
                    run_one(w, &p, &ops)?;
                }
                Ok(())
            }));
            s = e;
        }
    }
    us
}

pub fn c18(t: Tier) -> Vec<Unit> {
    let v = |c| val(c, 20);
    let a = find_key("a", |s, r, _| s < 0x4000 && r == 1);
    let a2 = find_key("A", |s, r, _| s < 0x4000 && r == 2);
    let c = find_key("b", |s, r, _| s >= 0xc000 && r == 1);
    let (l, q) = (b("L"), b("Q"));
    let full = vec![Set(a.clone(), v(b'x')), Set(a2.clone(), v(b'x')), Set(c.clone(), v(b'x'))];
    let with = |base: &[Op], more: &[Op]| -> Vec<Op> { base.iter().cloned().chain(more.iter().cloned()).collect() };
    let kv = vec![Set(a.clone(), v(b'1')), Set(c.clone(), v(b'2')), Set(b("new"), v(b'3')), Remove(a2.clone()), Goc(a2.clone(), v(b'4')), Flush, Merge(40_000), Clear];
    let mut ps: Vec<DProg> = vec![];
    let mut add = |name: &str, cfg: Config, init: Vec<Op>, alpha: Vec<Op>, depth: usize, eager: bool| {
        ps.push(DProg { name: name.into(), cfg, init, alpha, depth, eager, one: true, acked: false, faults: false });
    };
    let d = t.pick(3, 4);
    add("split", cfg(80, BIG), with(&full, &[Flush]), kv.clone(), d, false);
    add("compact", cfg(BIG, 20), with(&full, &[Flush]), kv.clone(), d, true);
    add("compact-lazy", cfg(BIG, 20), with(&full, &[Set(c.clone(), v(b'y')), Flush]), kv.clone(), d, false);
    add("both", cfg(100, 20), with(&full, &[Flush]), kv.clone(), d, true);
    // two small shards
    add("merge", cfg(90, BIG), with(&full, &[Set(b("zz"), v(b'x')), Remove(b("zz")), Flush]), with(&kv, &[]), d, false);
    let mut wide = cfg(BIG, 20);
    wide.expected_number_of_keys = 2 * 29491 + 10;
    add("wide", wide, with(&full, &[Flush]), kv.clone(), d - 1, true);
    let mut tr = cfg(100, 20);
    tr.truncate_up = true;
    add("truncate_up", tr, with(&full, &[Flush]), kv.clone(), d - 1, true);
    // collections untouched since the flush while their entries are moved about
    let x = |s: &str| b(s);
    let li = vec![LSet(l.clone(), x("x"), v(b'1')), LSet(l.clone(), x("y"), v(b'2')), QPushT(q.clone(), v(b'1')), QPushT(q.clone(), v(b'2')), BSet(x("big"), v(b'7')), Flush];
    let ka = vec![Set(a.clone(), v(b'1')), Set(c.clone(), v(b'2')), Set(b("new"), v(b'3')), Remove(a.clone()), LPopH(l.clone()), QPopH(q.clone()), Flush, Merge(40_000)];
    add("coll-split", cfg(260, BIG), li.clone(), ka.clone(), t.pick(2, 3), false);
    add("coll-both", cfg(260, 20), li.clone(), ka.clone(), t.pick(2, 3), true);
    // reopened in between
    let mut ro = kv.clone();
    ro.push(Reopen);
    add("reopen", cfg(100, 20), with(&full, &[Flush]), ro, t.pick(2, 3), false);
    // a background compaction fails half way, and is resumed
    let mut st = with(&full, &[Flush, Set(c.clone(), v(b'y')), Set(c.clone(), v(b'z')), Quiesce]);
    let fa = vec![Set(a.clone(), v(b'1')), Set(c.clone(), v(b'2')), Set(b("new"), v(b'3')), Remove(a2.clone()), Flush, Merge(40_000)];
    for (n, cf) in [("stuck-compact", cfg(BIG, 20)), ("stuck-both", cfg(100, 20)), ("stuck-merge", cfg(90, 20))] {
        if n == "stuck-merge" {
            st = with(&full, &[Set(b("zz"), v(b'x')), Remove(b("zz")), Flush, Set(c.clone(), v(b'y')), Set(c.clone(), v(b'z')), Quiesce]);
        }
        ps.push(DProg { name: n.into(), cfg: cf, init: st.clone(), alpha: fa.clone(), depth: t.pick(1, 2), eager: false, one: false, acked: false, faults: true });
    }
    let mut us = units(ps, t.pick(12, 40));
    us.extend(conc18(t));
    us
}

/// A flush against writers and background compactions.
fn conc18(t: Tier) -> Vec<Unit> {
    use crate::conc::KProg;
    let v = |c| val(c, 20);
    let a = find_key("a", |s, r, _| s < 0x4000 && r == 1);
    let a2 = find_key("A", |s, r, _| s < 0x4000 && r == 2);
    let c = find_key("b", |s, r, _| s >= 0xc000 && r == 1);
    let full = vec![Set(a.clone(), v(b'x')), Set(a2.clone(), v(b'x')), Set(c.clone(), v(b'x'))];
    let ops = vec![Set(a.clone(), v(b'1')), Set(c.clone(), v(b'2')), Set(b("new"), v(b'3')), Remove(a2.clone()), Merge(40_000)];
    let mut ps = vec![];
    for (n, cf, settle) in [("split", cfg(80, BIG), true), ("compact", cfg(BIG, 20), false), ("both", cfg(100, 20), true)] {
        let mut init = full.clone();
        if n == "compact" {
            init.push(Set(c.clone(), v(b'y')));
            init.push(Set(c.clone(), v(b'z')));
        }
        for x in &ops {
            for th in [vec![vec![x.clone(), Flush]], vec![vec![x.clone(), Flush], vec![Set(c.clone(), v(b'5'))]], vec![vec![x.clone(), Flush], vec![Set(a2.clone(), v(b'6'))]], vec![vec![Set(a.clone(), v(b'7')), Flush], vec![x.clone(), Flush]]] {
                let mut p = KProg::new(&format!("flush-{n}"), cf.clone(), init.clone(), th, t.pick(1, 2));
                p.settle = settle;
                p.durable = 1;
                p.visits = t.pick(3, 6);
                p.max_execs = t.pick(1500, 30_000);
                ps.push(p);
            }
        }
    }
    crate::conc::units(ps, 1)
}

#[allow(dead_code)]
pub fn unused(_: Idx) {}

#[cfg(feature = "flush_aggregation")]
fn agg(max: u32, comp: u32) -> Config {
    let mut c = cfg(max, comp);
    c.flush_aggregation_delay = Some(std::time::Duration::from_millis(1));
    c
}
#[cfg(not(feature = "flush_aggregation"))]
fn agg(max: u32, comp: u32) -> Config {
    cfg(max, comp)
}

/// Flush aggregation: every acknowledged operation is durable.
pub fn c19(t: Tier) -> Vec<Unit> {
    use crate::conc::{combos, two_one, KProg};
    if cfg!(not(feature = "flush_aggregation")) {
        mcrt::rt::fatal("build", "C19 needs the flush_aggregation feature");
    }
    let v = |c| val(c, 20);
    let a = find_key("a", |s, r, _| s < 0x4000 && r == 1);
    let a2 = find_key("A", |s, r, _| s < 0x4000 && r == 2);
    let c = find_key("b", |s, r, _| s >= 0xc000 && r == 1);
    let full = vec![Set(a.clone(), v(b'x')), Set(a2.clone(), v(b'x')), Set(c.clone(), v(b'x'))];
    let alpha = vec![
        Set(a.clone(), v(b'1')),
        Set(a.clone(), v(b'x')),
        Set(c.clone(), v(b'2')),
        Set(b("new"), v(b'3')),
        Remove(a2.clone()),
        Remove(a.clone()),
        Goc(a2.clone(), v(b'4')),
        Goc(b("new"), v(b'5')),
        Replace(a.clone(), v(b'6'), None),
        Replace(c.clone(), v(b'x'), Some(v(b'x'))),
        TSet(7, "t".into()),
    ];
    // sequences, losing everything unsynced at every point
    let mut ds = vec![];
    for (n, cf, eager) in [("seq-none", agg(BIG, BIG), false), ("seq-split", agg(80, BIG), false), ("seq-compact", agg(BIG, 20), true), ("seq-both", agg(100, 20), true), ("seq-lazy", agg(100, 20), false)] {
        let mut al = alpha.clone();
        al.extend([Merge(40_000), Clear]);
        ds.push(DProg { name: n.into(), cfg: cf, init: full.clone(), alpha: al, depth: t.pick(2, 3), eager, one: true, acked: true, faults: false });
    }
    let mut us = units(ds, t.pick(12, 40));
    // writers sharing syncs
    let mut ps = vec![];
    let mut add = |name: &str, cf: Config, init: Vec<Op>, settle: bool, th: Vec<Vec<Op>>, bound: u32| {
        let mut p = KProg::new(name, cf, init, th, bound);
        p.settle = settle;
        p.durable = 2;
        p.visits = t.pick(3, 6);
        p.max_execs = t.pick(1500, 30_000);
        ps.push(p.clone());
        p
    };
    let one: Vec<Vec<Op>> = alpha.iter().map(|o| vec![o.clone()]).collect();
    for th in combos(&one, 2) {
        add("pair", agg(BIG, BIG), full.clone(), true, th.clone(), 2);
        let mut w = full.clone();
        w.extend([Set(c.clone(), v(b'y')), Set(c.clone(), v(b'z'))]);
        // a compaction is due, or pending
        add("pair-compact", agg(BIG, 20), w[..4].to_vec(), true, th.clone(), t.pick(1, 2));
        add("pair-compacting", agg(BIG, 20), w.clone(), false, th.clone(), t.pick(1, 2));
        add("pair-split", agg(80, BIG), full.clone(), true, th, t.pick(1, 2));
    }
    let hot = [Set(a.clone(), v(b'1')), Set(a2.clone(), v(b'2')), Remove(a2.clone())];
    let hot1: Vec<Vec<Op>> = hot.iter().map(|o| vec![o.clone()]).collect();
    for th in combos(&hot1, 3) {
        add("triple", agg(BIG, BIG), full.clone(), true, th, t.pick(1, 2));
    }
    for th in two_one(&hot, &hot) {
        add("two-one", agg(BIG, BIG), full.clone(), true, th, t.pick(1, 2));
    }
    // syncs failing
    let mut fs = vec![];
    for th in combos(&hot1, 2).into_iter().chain(t.pick(vec![], combos(&hot1, 3))) {
        for n in 1..=t.pick(3u64, 5) {
            for persist in [false, true] {
                let mut p = KProg::new("sync-fails", agg(BIG, BIG), full.clone(), th.clone(), t.pick(2, 2));
                p.durable = 2;
                p.visits = t.pick(3, 6);
                p.max_execs = t.pick(1500, 30_000);
                // those of the setup come first
                p.sync_fault = Some((full.len() as u64 + n, persist));
                fs.push(p);
            }
        }
    }
    ps.extend(fs);
    us.extend(crate::conc::units(ps, 2));
    us
}
