//! Further properties: termination, data races, statistics, clear.
use crate::checks::{kp, scene, Scene};
use crate::conc::{self, combos, seqs, two_one, KProg};
use crate::fw::*;
use crate::model::M;
use crate::seq::{self, Prog};
use crate::util::*;
use candystore::Config;
use drv::{Idx, Op, Res, St, V};
use Op::*;

fn v(c: u8) -> V {
    val(c, 20)
}

// ------------------------------------------------------------------ C17
fn busy_scenes(a: &V, c: &V) -> Vec<Scene> {
    let mut wide = cfg(BIG, BIG);
    wide.expected_number_of_keys = 0;
    vec![
        scene("plain", cfg(BIG, BIG), vec![Set(a.clone(), v(b'x')), LSet(b("L"), b("x"), v(b'1')), QPushT(b("Q"), v(b'2'))], true, false),
        scene("split", cfg(60, BIG), vec![Set(a.clone(), v(b'x')), Set(c.clone(), v(b'x'))], true, true),
        // several shards
        scene("tree", cfg(60, BIG), vec![Set(a.clone(), v(b'x')), Set(c.clone(), v(b'x')), Set(b("k3"), v(b'x'))], true, true),
        scene("compact", cfg(BIG, 20), vec![Set(c.clone(), v(b'x')), Set(a.clone(), v(b'w')), Set(a.clone(), v(b'x'))], true, true),
        scene("compacting", cfg(BIG, 20), vec![Set(c.clone(), v(b'x')), Set(a.clone(), v(b'w')), Set(a.clone(), v(b'x')), Set(c.clone(), v(b'y'))], false, true),
        // a compaction is in progress in a shard that is about to be full
        scene("compacting-full", cfg(80, 20), vec![Set(c.clone(), v(b'x')), Set(a.clone(), v(b'w')), Set(a.clone(), v(b'x')), Set(c.clone(), v(b'y'))], false, true),
    ]
}
pub fn c17(t: Tier) -> Vec<Unit> {
    let a = find_key("a", |s, r, _| s < 0x4000 && r == 1);
    let c = find_key("b", |s, r, _| s >= 0x8000 && r == 1);
    let q = t == Tier::Quick;
    let al = vec![
        Set(a.clone(), v(b'1')),
        Set(c.clone(), v(b'2')),
        Remove(a.clone()),
        Goc(b("new"), v(b'3')),
        Iter,
        Stats,
        Flush,
        Clear,
        Merge(40_000),
        LProm(b("L"), b("x"), v(b'4')),
        LPopH(b("L")),
        LDiscard(b("L")),
        LCompact(b("L"), 0),
        LIter(b("L")),
        QExt(b("Q"), vec![v(b'5'), v(b'6')]),
        QDiscard(b("Q")),
        QIterB(b("Q")),
        BSet(b("B"), v(b'7')),
    ];
    let core: Vec<Op> = [0usize, 1, 5, 6, 7, 8].iter().map(|i| al[*i].clone()).collect();
    let mut ps: Vec<KProg> = vec![];
    for th in [1usize, 2, 0] {
        for mut s in busy_scenes(&a, &c) {
            if th != 1 && !s.name.starts_with("compact") {
                continue;
            }
            s.cfg.num_compaction_threads = th;
            let pre = format!("live{th}");
            let mut progs = vec![];
            for x in combos(&seqs(if q && (s.heavy || th != 1) { &core } else { &al }, 1), 2) {
                progs.push((x, t.pick(if s.heavy { 1 } else { 2 }, 2)));
            }
            if q && s.heavy && th == 1 {
                // every operation against each core operation
                for x in &core {
                    for y in &al {
                        if !core.contains(y) {
                            progs.push((vec![vec![x.clone()], vec![y.clone()]], 1));
                        }
                    }
                }
            }
            if !q || (th == 1 && (s.name == "compacting" || s.name == "split")) {
                for x in combos(&seqs(&core, 1), 3) {
                    progs.push((x, 1));
                }
            }
            if th == 1 && s.name != "plain" {
                // a write, then something that waits for what the write began, against another write
                let first: Vec<Op> = [0usize, 1, 2].iter().map(|i| al[*i].clone()).collect();
                let then: Vec<Op> = [5usize, 6, 7, 8].iter().map(|i| al[*i].clone()).collect();
                for a in if q { &first[..2] } else { &first[..] } {
                    for b in &then {
                        for c in if q { &first[..2] } else { &first[..] } {
                            progs.push((vec![vec![a.clone(), b.clone()], vec![c.clone()]], 1));
                        }
                    }
                }
            }
            for (x, bound) in progs {
                let mut p = kp(t, &pre, &s, x, bound);
                p.lin = false;
                p.results = false;
                ps.push(p);
            }
        }
    }
    // two lists sharing one lock
    let s = scene("locks", cfg(BIG, BIG), vec![LSet(b("L"), b("x"), v(b'1')), QPushT(b("L"), v(b'1'))], true, false);
    let la: Vec<Op> = (0..6u8)
        .flat_map(|i| {
            let n = vec![b'L' + i];
            [LProm(n.clone(), b("x"), v(b'2')), LDiscard(n.clone()), QPopH(n.clone())]
        })
        .collect();
    for x in combos(&seqs(&la[..if q { 9 } else { 18 }], 1), 2) {
        let mut p = kp(t, "live", &s, x, 2);
        p.lin = false;
        p.results = false;
        ps.push(p);
    }
    ps.sort_by_key(|p| p.bound);
    conc::units(ps, 2)
}

// ------------------------------------------------------------------ C27
pub fn c27(t: Tier) -> Vec<Unit> {
    let a = find_key("a", |s, r, _| s < 0x4000 && r == 1);
    let c = find_key("b", |s, r, _| s >= 0x8000 && r == 1);
    let q = t == Tier::Quick;
    let al = vec![
        Set(a.clone(), v(b'1')),
        Remove(a.clone()),
        Get(a.clone()),
        Goc(c.clone(), v(b'3')),
        Replace(c.clone(), v(b'4'), None),
        Iter,
        Stats,
        Flush,
        Merge(40_000),
        Clear,
        LProm(b("L"), b("x"), v(b'5')),
        LPopT(b("L")),
        LIterB(b("L")),
        LLen(b("L")),
        QPushH(b("Q"), v(b'6')),
        QPopT(b("Q")),
        QRemove(b("Q"), Idx::Nth(0)),
        QPeekT(b("Q")),
    ];
    let core: Vec<Op> = [0usize, 1, 2, 3, 5, 8].iter().map(|i| al[*i].clone()).collect();
    let mut ps = vec![];
    for s in busy_scenes(&a, &c) {
        let mut progs = vec![];
        for x in combos(&seqs(if q && s.heavy { &al[..10] } else { &al }, 1), 2) {
            progs.push((x, t.pick(if s.heavy { 1 } else { 2 }, 3)));
        }
        if !(q && s.heavy) {
            for x in combos(&seqs(&core, 1), 3) {
                progs.push((x, t.pick(1, 2)));
            }
            for x in two_one(&core, &core) {
                progs.push((x, t.pick(1, 2)));
            }
        }
        for (x, bound) in progs {
            let mut p = kp(t, "race", &s, x, bound);
            p.lin = false;
            p.results = false;
            p.race = true;
            ps.push(p);
        }
    }
    ps.sort_by_key(|p| p.bound);
    conc::units(ps, 2)
}

// ------------------------------------------------------------------ C20
fn stats(db: &drv::Db) -> Result<St, String> {
    match ex(db, &Stats, &[]) {
        Res::Stats(s) => Ok(s),
        r => Err(format!("stats returned {}", pres(&r))),
    }
}
fn raw(db: &drv::Db) -> Result<Vec<(V, V)>, String> {
    match mcrt::user(|| drv::raw_entries(db)).clone() {
        Res::KVs(v) => Ok(v),
        r => Err(format!("raw iteration returned {}", pres(&r))),
    }
}
/// the statistics of a quiescent store against its contents
pub fn stats_exact(db: &drv::Db, _m: &M, cf: &Config) -> Result<(), String> {
    let s = stats(db)?;
    let es = raw(db)?;
    let live: usize = es.iter().map(|e| e.0.len() + e.1.len()).sum();
    if s.inserts < s.removals || s.inserts - s.removals != es.len() {
        return Err(format!("stats: inserts {} minus removals {} but {} entries stored", s.inserts, s.removals, es.len()));
    }
    if s.occupied < s.wasted || s.occupied - s.wasted != live {
        return Err(format!("stats: {} bytes occupied, {} wasted, but {} bytes are live", s.occupied, s.wasted, live));
    }
    if s.hist.iter().sum::<usize>() != s.wops {
        return Err(format!("stats: size histogram {:?} does not add up to {} writes", s.hist, s.wops));
    }
    if s.nsplit_stats > s.num_splits || s.ncomp_stats > s.num_compactions {
        return Err(format!("stats: more split/compaction records than splits/compactions: {s:?}"));
    }
    let _ = cf;
    let hdr = candystore::Stats::FILE_HEADER_SIZE;
    let n = es.len();
    let mut need = 1;
    while need * 29491 < n {
        need *= 2;
    }
    let want = [n, live, s.num_shards * hdr + s.occupied, if n == 0 { 0 } else { live / n }, need];
    if s.derived != want || s.should_merge != (s.num_shards > 2 * need) {
        return Err(format!("stats: derived figures {:?}, {} instead of {want:?}", s.derived, s.should_merge));
    }
    // reading changes nothing but the read counters
    let s2 = stats(db)?;
    if (s2.num_shards, s2.occupied, s2.wasted, s2.inserts, s2.removals, s2.updates, s2.wops, s2.wbytes, s2.hist)
        != (s.num_shards, s.occupied, s.wasted, s.inserts, s.removals, s.updates, s.wops, s.wbytes, s.hist)
    {
        return Err(format!("stats: changed from {s:?} to {s2:?} while only reading"));
    }
    if s2.nsplit_stats + s2.ncomp_stats != 0 {
        return Err("stats: split or compaction records reported twice".into());
    }
    // every operation moves exactly its counters (unless it triggered a split or compaction)
    let k = b("stat-key");
    let had = es.iter().any(|e| e.0.starts_with(&k));
    if had {
        return Ok(());
    }
    let n = k.len() + 1;
    let bucket = |sz: usize| [128usize, 1024, 8192, 32768].iter().position(|l| sz < *l).unwrap_or(4);
    let steps: Vec<(Op, &str)> = vec![
        (Get(k.clone()), "miss"),
        (Contains(k.clone()), "miss"),
        (Replace(k.clone(), val(b'a', 10), None), "none"),
        (Set(k.clone(), val(b'a', 100)), "insert"),
        (Set(k.clone(), val(b'a', 100)), "none"),
        (Get(k.clone()), "hit"),
        (Set(k.clone(), val(b'b', 200)), "update"),
        (Replace(k.clone(), val(b'c', 300), Some(val(b'x', 1))), "none"),
        (Replace(k.clone(), val(b'c', 9000), None), "update"),
        (Goc(k.clone(), val(b'd', 10)), "hit"),
        (Remove(k.clone()), "remove"),
        (Remove(k.clone()), "none"),
        (Goc(k.clone(), val(b'e', 10)), "insert"),
        (Remove(k.clone()), "remove"),
    ];
    let r = stat_steps(db, steps, n, &bucket);
    let _ = ex(db, &Remove(k), &[]);
    r
}
fn stat_steps(db: &drv::Db, steps: Vec<(Op, &str)>, n: usize, bucket: &dyn Fn(usize) -> usize) -> Result<(), String> {
    let mut prev = stats(db)?;
    let mut cur = 0usize;
    for (op, kind) in steps {
        let r = ex(db, &op, &[]);
        if matches!(r, Res::Err(drv::E::NoFit(..))) {
            return Ok(());
        }
        if let Res::Err(e) = &r {
            return Err(format!("stats: {} failed: {e:?}", pop(&op)));
        }
        quiesce();
        let now = stats(db)?;
        if now.num_splits != prev.num_splits || now.num_compactions != prev.num_compactions {
            return Ok(());
        }
        let mut want = prev.clone();
        // how often existing entries are read back is up to the implementation
        if now.rops < prev.rops || now.rbytes < prev.rbytes || (now.rops == prev.rops) != (now.rbytes == prev.rbytes) {
            return Err(format!("stats: after {} the read counters went from {}/{} to {}/{}", pop(&op), prev.rops, prev.rbytes, now.rops, now.rbytes));
        }
        want.rops = now.rops;
        want.rbytes = now.rbytes;
        want.derived = now.derived;
        want.should_merge = now.should_merge;
        want.nsplit_stats = now.nsplit_stats;
        want.ncomp_stats = now.ncomp_stats;
        let sz = |op: &Op| match op {
            Set(_, v) | Replace(_, v, _) | Goc(_, v) => n + v.len(),
            _ => 0,
        };
        match kind {
            "miss" => want.neg += 1,
            "hit" => want.pos += 1,
            "insert" | "update" => {
                let z = sz(&op);
                want.occupied += z;
                want.wops += 1;
                want.wbytes += z;
                want.hist[bucket(z)] += 1;
                if kind == "insert" {
                    want.inserts += 1;
                } else {
                    want.updates += 1;
                    want.wasted += cur;
                }
                cur = z;
            }
            "remove" => {
                want.removals += 1;
                want.wasted += cur;
            }
            _ => {}
        }
        if now != want {
            return Err(format!("stats: after {} expected {want:?}, reported {now:?}", pop(&op)));
        }
        prev = now;
    }
    Ok(())
}
/// Every counter after every operation on keys that collide completely: hits, misses, inserts, updates, removals and
/// collisions (a new key beside one with the same row and signature).
fn counters(t: Tier) -> Vec<Unit> {
    let g: Vec<V> = crate::inputs::triple();
    let mut al = vec![];
    for (i, k) in g.iter().enumerate() {
        al.push(Set(k.clone(), val(b'1', 20)));
        al.push(Goc(k.clone(), val(b'2', 30)));
        al.push(Remove(k.clone()));
        if i < 2 {
            al.push(Set(k.clone(), val(b'3', 40)));
            al.push(Get(k.clone()));
            al.push(Replace(k.clone(), val(b'4', 50), Some(val(b'1', 20))));
            al.push(Replace(k.clone(), val(b'5', 50), None));
        }
    }
    let p = Prog::new("counters", cfg(BIG, BIG), vec![], al, t.pick(3, 4));
    let total = p.total();
    let p = std::sync::Arc::new(p);
    let mut us = vec![];
    let mut i = 0;
    while i < total {
        let e = (i + 100).min(total);
        let p = p.clone();
        us.push(unit(format!("counters of sequences {i}..{e} of {total}"), move |w| {
            for n in i..e {
                if w.out_of_time() {
                    break;
                }
                let ops = p.nth(n);
                w.what = pops(&ops);
                let dir = w.dir(0);
                let d2 = dir.clone();
                let (r, _) = w.session(mcrt::rt::Cfg { dir, ..Default::default() }, || count(&d2, &p.cfg, &ops));
                match r {
                    Ok(h) => {
                        w.state(h);
                    }
                    Err(x) => w.check(viol(format!("counters:{:016x}", hash_s(&pops(&ops))), format!("{} => {x}", pops(&ops))))?,
                }
            }
            Ok(())
        }));
        i = e;
    }
    us
}
fn count(dir: &str, cf: &Config, ops: &[Op]) -> Result<u64, String> {
    let db = open(dir, cf)?;
    let mut m = M::default();
    let mut w = stats(&db)?;
    let r = (|| {
        for op in ops {
            let (before, others) = match op {
                Set(k, _) | Goc(k, _) | Remove(k) | Get(k) | Replace(k, ..) => (m.kv.get(k).cloned(), m.kv.keys().any(|x| x != k)),
                _ => unreachable!(),
            };
            let r = ex(&db, op, &[]);
            if !m.accept(op, &r, &[]) {
                return Err(format!("{} returned {}", pop(op), pres(&r)));
            }
            let klen = match op {
                Set(k, _) | Goc(k, _) | Remove(k) | Get(k) | Replace(k, ..) => k.len() + 1,
                _ => 0,
            };
            let insert = |w: &mut St, v: &V| {
                w.inserts += 1;
                w.coll += others as usize;
                w.wops += 1;
                w.wbytes += klen + v.len();
                w.occupied += klen + v.len();
            };
            match (op, before) {
                (Get(_), Some(_)) | (Goc(..), Some(_)) => w.pos += 1,
                (Get(_), None) => w.neg += 1,
                (Set(_, v), None) | (Goc(_, v), None) => insert(&mut w, v),
                (Set(_, v), Some(o)) | (Replace(_, v, None), Some(o)) => {
                    if *v != o {
                        w.updates += 1;
                        w.wops += 1;
                        w.wbytes += klen + v.len();
                        w.occupied += klen + v.len();
                        w.wasted += klen + o.len();
                    }
                }
                (Replace(_, v, Some(x)), Some(o)) if *x == o => {
                    if *v != o {
                        w.updates += 1;
                        w.wops += 1;
                        w.wbytes += klen + v.len();
                        w.occupied += klen + v.len();
                        w.wasted += klen + o.len();
                    }
                }
                (Remove(_), Some(o)) => {
                    w.removals += 1;
                    w.wasted += klen + o.len();
                }
                _ => {}
            }
            let now = stats(&db)?;
            let mut want = w.clone();
            (want.rops, want.rbytes, want.hist) = (now.rops, now.rbytes, now.hist);
            (want.derived, want.should_merge) = (now.derived, now.should_merge);
            if now != want {
                return Err(format!("after {} expected {want:?}, reported {now:?}", pop(op)));
            }
        }
        Ok(hash_m(&m) ^ w.coll as u64)
    })();
    close(db);
    r
}
pub fn c20(t: Tier) -> Vec<Unit> {
    let a = find_key("a", |s, r, _| s < 0x4000 && r == 1);
    let c = find_key("b", |s, r, _| s >= 0x8000 && r == 1);
    let al = vec![
        Set(a.clone(), v(b'1')),
        Set(a.clone(), val(b'2', 33)),
        Set(c.clone(), v(b'2')),
        Remove(a.clone()),
        Replace(a.clone(), v(b'3'), Some(v(b'1'))),
        Goc(c.clone(), v(b'4')),
        LProm(b("L"), b("x"), v(b'5')),
        QExt(b("Q"), vec![v(b'6'), v(b'7')]),
        QPopH(b("Q")),
        BSet(b("B"), v(b'8')),
        Merge(40_000),
        Clear,
        Reopen,
    ];
    let mut ps = vec![];
    for (nm, cf) in [("plain", cfg(BIG, BIG)), ("split", cfg(100, BIG)), ("compact", cfg(BIG, 40)), ("both", cfg(160, 60))] {
        let mut p = Prog::new(&format!("stats-{nm}"), cf.clone(), vec![], al.clone(), t.pick(3, 4));
        p.post = Some(stats_exact);
        ps.push(p.clone());
        ps.push(p.eager());
        // large enough for the counter steps, small enough to split and compact on the way
        if nm == "both" {
            let mut p = Prog::new("stats-roomy", cfg(20_000, 9_000), vec![Set(b("pad"), val(b'p', 9_500)), Set(b("pad"), val(b'q', 9_500))], al.clone(), t.pick(2, 3));
            p.post = Some(stats_exact);
            ps.push(p.eager());
        }
    }
    let mut us = seq::units(ps, 100);
    us.extend(counters(t));
    us.push(unit("entries of every size at the limits of the size classes", move |w| {
        let dir = w.dir(0);
        let d2 = dir.clone();
        w.what = "size classes".into();
        let (r, _) = w.session(mcrt::rt::Cfg { dir, ..Default::default() }, || -> Result<(), String> {
            let db = open(&d2, &cfg(BIG, BIG))?;
            let k = b("stat-key");
            let n = k.len() + 1;
            let bucket = |sz: usize| [128usize, 1024, 8192, 32768].iter().position(|l| sz < *l).unwrap_or(4);
            let mut steps = vec![];
            for l in [128, 1024, 8192, 32768] {
                for d in 0..3 {
                    let x = |c| val(c, l + d - 1 - n);
                    steps.extend([(Set(k.clone(), x(b'a')), "insert"), (Replace(k.clone(), x(b'b'), None), "update"), (Set(k.clone(), x(b'c')), "update"), (Remove(k.clone()), "remove"), (Goc(k.clone(), x(b'd')), "insert"), (Remove(k.clone()), "remove")]);
                }
            }
            let r = stat_steps(&db, steps, n, &bucket);
            close(db);
            r
        });
        match r {
            Err(e) => w.check(viol("size-classes", e)),
            Ok(()) => Ok(()),
        }
    }));
    // crashes, of compactions of rows with several entries in particular
    let row: Vec<V> = ["p", "q", "r", "s"].iter().map(|x| find_key(x, |s, r, _| s < 0x4000 && r == 1)).collect();
    let mut init: Vec<Op> = row.iter().map(|k| Set(k.clone(), v(b'x'))).collect();
    init.push(Set(c.clone(), v(b'y')));
    let ca = vec![Set(row[0].clone(), v(b'1')), Remove(row[1].clone()), Set(b("new"), v(b'2')), Set(c.clone(), v(b'3')), Merge(40_000)];
    let mut cs = vec![];
    for (nm, cf, eager) in [("compact", cfg(BIG, 20), false), ("compact", cfg(BIG, 20), true), ("split", cfg(130, BIG), false), ("both", cfg(150, 40), true)] {
        let p = crate::crash::CProg::new(&format!("stats-crash-{nm}"), cf, init.clone(), ca.clone(), t.pick(2, 3)).nested(1);
        cs.push(if eager { p.eager() } else { p });
    }
    us.extend(crate::crash::units(cs, 2));
    let q = t == Tier::Quick;
    let mut ks = vec![];
    for s in busy_scenes(&a, &c) {
        let ops = [Set(a.clone(), v(b'1')), Set(c.clone(), v(b'2')), Remove(a.clone()), Goc(b("new"), v(b'3')), Replace(c.clone(), v(b'4'), None), LProm(b("L"), b("x"), v(b'4')), QPopH(b("Q")), Merge(40_000), Stats];
        for x in combos(&seqs(&ops, 1), 2) {
            let mut p = kp(t, "stats", &s, x, t.pick(if s.heavy { 1 } else { 2 }, 2));
            p.post = Some(stats_exact);
            p.lin = false;
            ks.push(p);
        }
        if !q {
            for x in combos(&seqs(&ops[..6], 1), 3) {
                let mut p = kp(t, "stats", &s, x, 1);
                p.post = Some(stats_exact);
                p.lin = false;
                ks.push(p);
            }
        }
    }
    us.extend(conc::units(ks, 2));
    us
}

// ------------------------------------------------------------------ C25
fn cleared(db: &drv::Db, _m: &M, cf: &Config) -> Result<(), String> {
    stats_exact(db, _m, cf)?;
    let r = ex(db, &Clear, &[]);
    if r != Res::Unit {
        return Err(format!("clear returned {}", pres(&r)));
    }
    let s = stats(db)?;
    let n = raw(db)?.len();
    if n != 0 {
        return Err(format!("{n} entries left after clear"));
    }
    let fresh = St { num_shards: s.num_shards, derived: [0, 0, s.num_shards * candystore::Stats::FILE_HEADER_SIZE, 0, 1], should_merge: s.num_shards > 2, ..St::default() };
    if s != fresh {
        return Err(format!("statistics after clear are {s:?}"));
    }
    // the number of shards of a new store with this configuration
    let want = match cf.expected_number_of_keys {
        0 => 1,
        _ => {
            let per = 64 * 512 * 9 / 10;
            let mut k = 1;
            while k * 2 <= cf.expected_number_of_keys.div_ceil(per).next_power_of_two() {
                k *= 2;
            }
            k
        }
    };
    if cf.expected_number_of_keys == 0 && s.num_shards != want {
        return Err(format!("{} shards after clear, a new store has {want}", s.num_shards));
    }
    quiesce();
    if !raw(db)?.is_empty() {
        return Err("entries appeared after clear".into());
    }
    // and it works: leave it empty again
    for i in 0..3u8 {
        let k = vec![b'c', b'0' + i];
        let r = ex(db, &Set(k.clone(), val(b'n', 30)), &[]);
        if r != Res::Created(None) {
            return Err(format!("set after clear returned {}", pres(&r)));
        }
    }
    let r = ex(db, &Get(b("c1")), &[]);
    if r != Res::Opt(Some(val(b'n', 30))) {
        return Err(format!("get after clear and set returned {}", pres(&r)));
    }
    if raw(db)?.len() != 3 {
        return Err("wrong number of entries after clear and three sets".into());
    }
    for i in 0..3u8 {
        let _ = ex(db, &Remove(vec![b'c', b'0' + i]), &[]);
    }
    // the enclosing check compares the reopened contents with what was there before: put it back
    for (k, x) in &_m.kv {
        let _ = ex(db, &Set(k.clone(), x.clone()), &[]);
    }
    for (l, items) in &_m.lists {
        for (k, x) in items {
            let _ = ex(db, &LSet(l.clone(), k.clone(), x.clone()), &[]);
        }
    }
    for (k, x) in &_m.queues {
        let r = ex(db, &QExt(k.clone(), x.iter().map(|y| y.1.clone()).collect()), &[]);
        if let Res::Err(e) = r {
            return Err(format!("extend after clear failed: {e:?}"));
        }
    }
    for (k, x) in &_m.typed {
        let _ = ex(db, &TSet(*k, String::from_utf8_lossy(x).to_string()), &[]);
    }
    for (k, x) in &_m.big {
        let _ = ex(db, &BSet(k.clone(), x.clone()), &[]);
    }
    Ok(())
}
pub fn c25(t: Tier) -> Vec<Unit> {
    let a = find_key("a", |s, r, _| s < 0x4000 && r == 1);
    let c = find_key("b", |s, r, _| s >= 0x8000 && r == 1);
    let al = vec![
        Set(a.clone(), v(b'1')),
        Set(a.clone(), v(b'2')),
        Set(c.clone(), v(b'2')),
        Remove(a.clone()),
        LSet(b("L"), b("x"), v(b'5')),
        QPushT(b("Q"), v(b'6')),
        BSet(b("B"), v(b'8')),
        TSet(3, "t".into()),
        Merge(40_000),
        Clear,
        Reopen,
    ];
    let q = t == Tier::Quick;
    let mut ps = vec![];
    let mut wide = cfg(BIG, BIG);
    wide.expected_number_of_keys = 100_000;
    for (nm, cf) in [("plain", cfg(BIG, BIG)), ("split", cfg(100, BIG)), ("compact", cfg(BIG, 40)), ("both", cfg(160, 60)), ("four", wide)] {
        let mut p = Prog::new(&format!("clear-{nm}"), cf.clone(), vec![], al.clone(), t.pick(if nm == "four" { 2 } else { 3 }, 4));
        p.post = Some(cleared);
        // queue indices restart after clear
        p.exact = true;
        ps.push(p.clone());
        ps.push(p.eager());
    }
    let mut us = seq::units(ps, 100);
    let mut ks = vec![];
    for s in busy_scenes(&a, &c) {
        let ops = [Set(a.clone(), v(b'1')), Set(c.clone(), v(b'2')), Remove(a.clone()), Goc(b("new"), v(b'3')), Get(c.clone()), Merge(40_000), Flush, Clear];
        for x in &ops {
            let mut p = kp(t, "clear", &s, vec![vec![Clear], vec![x.clone()]], t.pick(if s.heavy { 1 } else { 2 }, 3));
            p.post = Some(stats_exact);
            ks.push(p);
        }
        for x in seqs(&ops[..if q { 4 } else { 7 }], 2) {
            let mut p = kp(t, "clear", &s, vec![vec![Clear], x], t.pick(1, 2));
            p.post = Some(stats_exact);
            ks.push(p);
        }
        let mut p = kp(t, "clear", &s, vec![vec![Clear, Set(a.clone(), v(b'7'))]], t.pick(2, 3));
        p.post = Some(stats_exact);
        ks.push(p);
        for x in combos(&seqs(&ops[..if q { 2 } else { 5 }], 1), 2) {
            let mut p = kp(t, "clear", &s, vec![vec![Clear], x[0].clone(), x[1].clone()], t.pick(1, 2));
            p.post = Some(stats_exact);
            ks.push(p);
        }
    }
    ks.sort_by_key(|p| p.bound);
    us.extend(conc::units(ks, 2));
    us
}
