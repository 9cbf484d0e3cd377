//! Every arrangement of shard files (all dyadic partitions up to a depth), with every fill level and
//! every leftover an interrupted split or merge can leave, opened, used and merged by the real code.
use crate::fw::*;
use crate::model::{short, Uni, M};
use crate::util::*;
use candystore::Config;
use drv::{Op, Res, V};
use mcrt::rt::Cfg;
use std::collections::BTreeMap;
use std::ops::Range;
use Op::*;

const END: u32 = 1 << 16;
type Span = (u32, u32);

/// all dyadic partitions of `s` with at most `depth` levels
pub fn shapes(s: Span, depth: u32) -> Vec<Vec<Span>> {
    let mut v = vec![vec![s]];
    if depth > 0 {
        let mid = (s.0 + s.1) / 2;
        let (l, r) = (shapes((s.0, mid), depth - 1), shapes((mid, s.1), depth - 1));
        for a in &l {
            for b in &r {
                let mut x = a.clone();
                x.extend(b.iter().copied());
                v.push(x);
            }
        }
    }
    v
}

pub const CELLS: u32 = 16;
/// keys[cell]: keys whose selector lies in the cell-th sixteenth of the space
pub struct Keys(Vec<Vec<V>>);
impl Keys {
    pub fn new(per: usize) -> Keys {
        let mut v: Vec<Vec<V>> = vec![vec![]; CELLS as usize];
        let mut i = 0u64;
        while v.iter().any(|c| c.len() < per) {
            let k = format!("k{i}").into_bytes();
            let (s, _, _) = ph(&user_key(&k));
            let c = (s / (END / CELLS)) as usize;
            if v[c].len() < per {
                v[c].push(k);
            }
            i += 1;
        }
        // the first and the last one lie exactly at the ends of the cell
        let w = END / CELLS;
        let mut ends = std::collections::BTreeMap::new();
        for c in 0..CELLS {
            ends.insert(c * w, (c as usize, 0));
            ends.insert(c * w + w - 1, (c as usize, per - 1));
        }
        let mut i = 0u64;
        while !ends.is_empty() {
            let k = format!("e{i}").into_bytes();
            if let Some((c, n)) = ends.remove(&ph(&user_key(&k)).0) {
                v[c][n] = k;
            }
            i += 1;
        }
        Keys(v)
    }
    /// n keys of a span, from both of its ends
    pub fn of(&self, s: Span, n: usize) -> Vec<V> {
        let w = END / CELLS;
        let (a, z) = ((s.0 / w) as usize, ((s.1 - 1) / w) as usize);
        (0..n).map(|i| if i % 2 == 0 { self.0[a][i / 2].clone() } else { self.0[z][self.0[z].len() - 1 - i / 2].clone() }).collect()
    }
}

fn name(s: Span) -> String {
    format!("shard_{:04x}-{:04x}", s.0, s.1)
}
pub fn make(dir: &str, leaves: &[Span]) {
    for l in leaves {
        std::fs::write(format!("{dir}/{}", name(*l)), b"").unwrap();
    }
}
/// spans of the shard files in a directory, and all other file names except the lock file
pub fn listing(dir: &str) -> (Vec<Span>, Vec<String>) {
    let (mut s, mut o) = (vec![], vec![]);
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if let Some((a, b)) = n.strip_prefix("shard_").and_then(|x| x.split_once('-')) {
            if let (Ok(a), Ok(b)) = (u32::from_str_radix(a, 16), u32::from_str_radix(b, 16)) {
                s.push((a, b));
                continue;
            }
        }
        if !n.starts_with(".lock") {
            o.push(n);
        }
    }
    s.sort();
    o.sort();
    (s, o)
}

fn contents(db: &drv::Db, m: &M, uni: &Uni, when: &str) -> Result<(), String> {
    let o = obs(db, uni, true, true).map_err(|e| format!("{when}: {e}"))?;
    if !o.m.same(m) {
        return Err(format!("{when}: contents {} expected {}", short(&o.m), short(m)));
    }
    Ok(())
}
fn nshards(db: &drv::Db) -> Result<usize, String> {
    match ex(db, &Stats, &[]) {
        Res::Stats(s) => Ok(s.num_shards),
        r => Err(format!("stats returned {}", pres(&r))),
    }
}

fn below(l: &[(Span, usize)], s: Span) -> usize {
    l.iter().filter(|x| x.0 .0 >= s.0 && x.0 .1 <= s.1).map(|x| x.1).sum()
}
/// may the leaves below `s` have been merged into one shard?
fn mergeable(l: &[(Span, usize)], s: Span, max: usize) -> bool {
    if l.iter().any(|x| x.0 == s) {
        return true;
    }
    let mid = (s.0 + s.1) / 2;
    [(s.0, mid), (mid, s.1)].iter().all(|h| below(l, *h) <= max && mergeable(l, *h, max))
}

pub struct MergeCase {
    pub leaves: Vec<(Span, usize)>,
    /// hundred-thousandths
    pub level: u32,
    pub expected: usize,
    pub reopen: bool,
}
impl MergeCase {
    fn what(&self) -> String {
        format!(
            "shards {} holding {:?} items, merge at fill level {}, expected keys {}{}",
            self.leaves.iter().map(|l| format!("{:x}-{:x}", l.0 .0, l.0 .1)).collect::<Vec<_>>().join(","),
            self.leaves.iter().map(|l| l.1).collect::<Vec<_>>(),
            self.level as f64 / 100_000.0,
            self.expected,
            if self.reopen { ", reopened first" } else { "" }
        )
    }
}
const CAP: usize = 64 * 512 * 9 / 10;
fn needed(n: usize) -> usize {
    // the smallest power of two of shards of the documented capacity that holds n keys
    let mut k = 1;
    while k * CAP < n {
        k *= 2;
    }
    k
}

pub fn merge_case(dir: &str, c: &MergeCase, keys: &Keys) -> Result<u64, String> {
    let mut cf = cfg(BIG, BIG);
    cf.expected_number_of_keys = c.expected;
    let max = (CAP as f32 * (c.level as f32 / 100_000.0)) as usize;
    let mut ops = vec![];
    for (s, n) in &c.leaves {
        for k in keys.of(*s, *n) {
            ops.push(Set(k, val(b'v', 9)));
        }
    }
    let uni = Uni::of(&ops);
    let mut m = M::default();
    let mut db = open(dir, &cf)?;
    let mut run = || -> Result<Vec<Span>, String> {
        for o in &ops {
            let r = ex(&db, o, &[]);
            if !m.accept(o, &r, &[]) {
                return Err(format!("{} returned {}", pop(o), pres(&r)));
            }
        }
        Ok(vec![])
    };
    if let Err(e) = run() {
        close(db);
        return Err(e);
    }
    if c.reopen {
        close(db);
        db = open(dir, &cf).map_err(|e| format!("reopen before merging: {e}"))?;
    }
    let r = (|| {
        let before = nshards(&db)?;
        if before != c.leaves.len() {
            return Err(format!("{before} shards reported, there are {}", c.leaves.len()));
        }
        let r = ex(&db, &Merge(c.level), &[]);
        let Res::Bool(down) = r else { return Err(format!("merge returned {}", pres(&r))) };
        let after = nshards(&db)?;
        if down != (after < before) || after > before {
            return Err(format!("merge reported {down} but the number of shards went from {before} to {after}"));
        }
        contents(&db, &m, &uni, "after merging")?;
        let (sp, other) = listing(dir);
        if !other.is_empty() || sp.len() != after {
            return Err(format!("{after} shards but files {sp:x?} {other:?}"));
        }
        let floor = needed(c.expected.max(m.kv.len()));
        if after < floor && after < before {
            return Err(format!("merged down to {after} shards, the configured number of keys needs {floor}"));
        }
        for s in &sp {
            if !mergeable(&c.leaves, *s, max) {
                return Err(format!("shard {:x}-{:x} was merged from shards with more than {max} items", s.0, s.1));
            }
        }
        // a second merge is harmless
        let r = ex(&db, &Merge(c.level), &[]);
        if !matches!(r, Res::Bool(_)) {
            return Err(format!("second merge returned {}", pres(&r)));
        }
        contents(&db, &m, &uni, "after merging twice")?;
        Ok(sp)
    })();
    close(db);
    let sp = r?;
    let db = open(dir, &cf).map_err(|e| format!("reopening after the merge: {e}"))?;
    let r = contents(&db, &m, &uni, "after reopening");
    close(db);
    r?;
    Ok(hash_s(&format!("{sp:?}{}", hash_m(&m))))
}

fn fills(leaves: &[Span], opts: &[usize]) -> Vec<Vec<(Span, usize)>> {
    let mut v: Vec<Vec<(Span, usize)>> = vec![vec![]];
    for l in leaves {
        v = v.into_iter().flat_map(|x| opts.iter().map(move |o| { let mut x = x.clone(); x.push((*l, *o)); x })).collect();
    }
    v
}

pub fn c05(t: Tier) -> Vec<Unit> {
    let q = t == Tier::Quick;
    let mut cases = vec![];
    let mut push = |sh: &[Vec<Span>], opts: &[usize], levels: &[u32], exp: &[usize], reopen: bool| {
        for s in sh {
            for l in fills(s, opts) {
                for lv in levels {
                    for e in exp {
                        cases.push(MergeCase { leaves: l.clone(), level: *lv, expected: *e, reopen });
                    }
                }
            }
        }
    };
    let (s2, s3) = (shapes((0, END), 2), shapes((0, END), 3));
    // 4 -> one item per shard at most, 7 -> two, 11 -> three
    push(&s2, &[0, 1, 3], &[4, 7, 11, 40_000], &[0, 50_000, 100_000], true);
    push(&s3, if q { &[0, 2] } else { &[0, 1, 3] }, if q { &[4, 40_000] } else { &[4, 7, 40_000] }, &[0], false);
    if q {
        push(&s3, &[1], &[4, 7, 40_000], &[0, 50_000, 100_000], true);
    } else {
        push(&s3, &[0, 2], &[4, 11, 40_000], &[50_000, 100_000, 200_000], true);
        push(&shapes((0, END), 4), &[1], &[4, 7, 40_000], &[0, 50_000, 200_000], true);
    }
    let n = cases.len();
    let keys = std::sync::Arc::new(Keys::new(2));
    let mut us = vec![];
    let cases = std::sync::Arc::new(cases);
    let chunk = 20;
    let mut i = 0;
    while i < n {
        let (keys, cases) = (keys.clone(), cases.clone());
        let e = (i + chunk).min(n);
        us.push(unit(format!("merge cases {i}..{e} of {n}"), move |w| {
            for c in &cases[i..e] {
                if w.out_of_time() {
                    break;
                }
                let dir = w.dir(0);
                make(&dir, &c.leaves.iter().map(|l| l.0).collect::<Vec<_>>());
                w.what = c.what();
                w.sample(|| c.what());
                let d2 = dir.clone();
                let (r, out) = w.session(Cfg { dir, max_steps: 20_000_000, ..Default::default() }, || merge_case(&d2, c, &keys));
                match r {
                    Ok(_) if !out.panics.is_empty() => w.check(viol(format!("merge:{:016x}", hash_s(&c.what())), format!("{} => panic in a background thread {:?}", c.what(), out.panics)))?,
                    Ok(h) => {
                        w.state(mcrt::mix(h, hash_s(&c.what())));
                    }
                    Err(e) => w.check(viol(format!("merge:{:016x}", hash_s(&c.what())), format!("{} => {e}", c.what())))?,
                }
            }
            Ok(())
        }));
        i = e;
    }
    // more items in one row than a merged shard can hold
    for (nb, nt) in [(300usize, 300usize), (256, 256), (257, 256), (512, 1)] {
        us.push(unit(format!("merge with {nb}+{nt} items in one row"), move |w| {
            let mut ops = vec![];
            let (mut x, mut y, mut i) = (0, 0, 0u64);
            while x < nb || y < nt {
                let k = format!("r{i}").into_bytes();
                i += 1;
                let (s, r, _) = ph(&user_key(&k));
                if r != 17 {
                    continue;
                }
                let c = if s < END / 2 { (&mut x, nb) } else { (&mut y, nt) };
                if *c.0 < c.1 {
                    *c.0 += 1;
                    ops.push(Set(k, b("v")));
                }
            }
            let dir = w.dir(0);
            make(&dir, &[(0, END / 2), (END / 2, END)]);
            w.what = format!("merge with {nb}+{nt} items in one row");
            let what = w.what.clone();
            let d2 = dir.clone();
            let cf = cfg(BIG, BIG);
            let (r, _) = w.session(Cfg { dir, max_steps: 50_000_000, ..Default::default() }, || -> Result<(), String> {
                let db = open(&d2, &cf)?;
                let mut m = M::default();
                let uni = Uni::of(&ops[..3]);
                let all = |db: &drv::Db, m: &M, when: &str| -> Result<(), String> {
                    let r = ex(db, &Iter, &[]);
                    if !m.clone().accept(&Iter, &r, &[]) {
                        return Err(format!("{when}: the contents differ"));
                    }
                    for k in m.kv.keys() {
                        if ex(db, &Get(k.clone()), &[]) != Res::Opt(Some(b("v"))) {
                            return Err(format!("{when}: {} is missing", String::from_utf8_lossy(k)));
                        }
                    }
                    Ok(())
                };
                let r = (|| {
                    for o in &ops {
                        let r = ex(&db, o, &[]);
                        if !m.accept(o, &r, &[]) {
                            return Err(format!("{} returned {}", pop(o), pres(&r)));
                        }
                    }
                    let before = nshards(&db)?;
                    let r = ex(&db, &Merge(40_000), &[]);
                    let Res::Bool(down) = r else { return Err(format!("merge returned {}", pres(&r))) };
                    let after = nshards(&db)?;
                    if down != (after < before) {
                        return Err(format!("merge reported {down} but the number of shards went from {before} to {after}"));
                    }
                    all(&db, &m, "after merging")?;
                    let (_, o) = listing(&d2);
                    if !o.is_empty() {
                        return Err(format!("files left behind: {o:?}"));
                    }
                    // still writable
                    for o in &ops[..2] {
                        let Set(k, _) = o else { unreachable!() };
                        for o in [Remove(k.clone()), Set(k.clone(), b("v"))] {
                            let r = ex(&db, &o, &[]);
                            if !m.accept(&o, &r, &[]) {
                                return Err(format!("{} returned {}", pop(&o), pres(&r)));
                            }
                        }
                    }
                    Ok(())
                })();
                close(db);
                r?;
                let db = open(&d2, &cf)?;
                let r = all(&db, &m, "after reopening");
                let _ = uni;
                close(db);
                r
            });
            w.state(hash_s(&what));
            if let Err(e) = r {
                w.check(viol(format!("mergerow:{nb}+{nt}"), format!("{what} => {e}")))?;
            }
            Ok(())
        }));
    }
    us
}

// ------------------------------------------------------------------ C26
/// Build the files of a populated store of the given shape; returns name -> bytes.
fn build(w: &mut Wk, leaves: &[Span], cf: &Config, m: &M) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let dir = w.dir(3);
    make(&dir, leaves);
    let d2 = dir.clone();
    let (r, _) = w.session(Cfg { dir: dir.clone(), max_steps: 20_000_000, ..Default::default() }, || -> Result<(), String> {
        let db = open(&d2, cf)?;
        let mut r = Ok(());
        for (k, v) in &m.kv {
            let x = ex(&db, &Set(k.clone(), v.clone()), &[]);
            if x != Res::Created(None) {
                r = Err(format!("populating: set({}) returned {}", String::from_utf8_lossy(k), pres(&x)));
                break;
            }
        }
        close(db);
        r
    });
    r?;
    let mut f = BTreeMap::new();
    for s in leaves {
        f.insert(name(*s), read_all(&format!("{dir}/{}", name(*s))));
    }
    Ok(f)
}

fn check_dir(w: &mut Wk, files: &[(String, Vec<u8>)], cf: &Config, m: &M, uni: &Uni, want: Option<&[Span]>, keep: &[String], what: &str) -> Result<(), String> {
    let dir = w.dir(4);
    for (n, c) in files {
        std::fs::write(format!("{dir}/{n}"), c).unwrap();
    }
    w.what = what.to_string();
    w.state(hash_s(what));
    let d2 = dir.clone();
    let (r, out) = w.session(Cfg { dir: dir.clone(), max_steps: 40_000_000, ..Default::default() }, || -> Result<(), String> {
        let mut m = m.clone();
        for round in 0..2 {
            let db = open(&d2, cf)?;
            let r = (|| {
                contents(&db, &m, uni, if round == 0 { "after opening" } else { "after reopening" })?;
                let (sp, other) = listing(&d2);
                let extra: Vec<_> = other.iter().filter(|o| !keep.contains(o)).collect();
                if !extra.is_empty() {
                    return Err(format!("leftover files {extra:?}"));
                }
                if let Some(gone) = keep.iter().find(|k| !other.contains(k)) {
                    return Err(format!("the file {gone} is gone"));
                }
                if let Some(want) = want {
                    if sp != want {
                        return Err(format!("shard files {sp:x?}, expected {want:x?}"));
                    }
                }
                if nshards(&db)? != sp.len() {
                    return Err(format!("{} shards reported, files {sp:x?}", nshards(&db)?));
                }
                // every operation goes to the right shard
                let ks: Vec<V> = m.kv.keys().cloned().collect();
                for (i, k) in ks.iter().enumerate() {
                    let seq = if i % 2 == 0 {
                        vec![Goc(k.clone(), b("no")), Remove(k.clone()), Goc(k.clone(), val(b'0' + round as u8, 12))]
                    } else {
                        vec![Set(k.clone(), val(b'5' + round as u8, 12)), Replace(k.clone(), val(b'7', 9), None)]
                    };
                    for o in seq {
                        let r = ex(&db, &o, &[]);
                        let before = m.clone();
                        if !m.accept(&o, &r, &[]) {
                            return Err(format!("{} returned {} in state {}", pop(&o), pres(&r), short(&before)));
                        }
                    }
                }
                contents(&db, &m, uni, "after using it")
            })();
            close(db);
            r?;
        }
        let db = open(&d2, cf)?;
        let r = contents(&db, &m, uni, "after using and reopening it");
        close(db);
        r
    });
    r?;
    if !out.panics.is_empty() {
        return Err(format!("panic in a background thread: {:?}", out.panics));
    }
    Ok(())
}

pub fn c26(t: Tier) -> Vec<Unit> {
    let q = t == Tier::Quick;
    let keys = std::sync::Arc::new(Keys::new(2));
    let all = shapes((0, END), t.pick(3, 4));
    let n = all.len();
    let mut us = vec![];
    for (i, leaves) in all.into_iter().enumerate() {
        let keys = keys.clone();
        us.push(unit(format!("shape {i} of {n}: {leaves:x?} with every leftover"), move |w| {
            let cf = cfg(BIG, BIG);
            let mut m = M::default();
            // two keys in every sixteenth of the key space
            for c in 0..CELLS {
                for k in keys.of((c * (END / CELLS), (c + 1) * (END / CELLS)), 2) {
                    m.kv.insert(k.clone(), val(b'a' + (c % 26) as u8, 9));
                }
            }
            let ops: Vec<Op> = m.kv.keys().map(|k| Get(k.clone())).collect();
            let uni = Uni::of(&ops);
            let fail = |w: &mut Wk, what: &str, e: String| w.check(viol(format!("shape:{:016x}", hash_s(what)), format!("{what} => {e}")));
            let base = match build(w, &leaves, &cf, &m) {
                Ok(f) => f,
                Err(e) => return fail(w, &format!("shape {leaves:x?}"), e),
            };
            let bf: Vec<(String, Vec<u8>)> = base.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
            let mut go = |w: &mut Wk, extra: Vec<(String, Vec<u8>)>, want: &[Span], keep: &[String], what: String| -> Result<(), Viol> {
                if w.out_of_time() {
                    return Ok(());
                }
                let mut f = bf.clone();
                for (n, c) in extra {
                    f.retain(|x| x.0 != n);
                    f.push((n, c));
                }
                w.add("directories", 1);
                match check_dir(w, &f, &cf, &m, &uni, Some(want), keep, &what) {
                    Ok(()) => Ok(()),
                    Err(e) => fail(w, &what, e),
                }
            };
            w.sample(|| format!("files {leaves:x?}, every single leftover of splits and merges"));
            go(w, vec![], &leaves, &[], format!("shards {leaves:x?}"))?;
            // interrupted split or merge below / above every place
            for (li, l) in leaves.iter().enumerate() {
                if l.1 - l.0 < 2 * END / CELLS {
                    continue;
                }
                let mid = (l.0 + l.1) / 2;
                let mut sub: Vec<Span> = leaves.clone();
                sub[li] = (l.0, mid);
                sub.insert(li + 1, (mid, l.1));
                let f2 = match build(w, &sub, &cf, &m) {
                    Ok(f) => f,
                    Err(e) => return fail(w, &format!("shape {sub:x?}"), e),
                };
                let (cb, ct) = (f2[&name((l.0, mid))].clone(), f2[&name((mid, l.1))].clone());
                let junk = |n: usize| vec![0x5au8; n];
                let bn = format!("bottom_{:04x}-{:04x}", l.0, mid);
                let tn = format!("top_{:04x}-{:04x}", mid, l.1);
                let sb = name((l.0, mid));
                let st = name((mid, l.1));
                let mut variants: Vec<Vec<(String, Vec<u8>)>> = vec![
                    vec![(bn.clone(), cb.clone())],
                    vec![(bn.clone(), vec![]), (tn.clone(), vec![])],
                    vec![(bn.clone(), junk(100)), (tn.clone(), junk(400_000))],
                    vec![(bn.clone(), cb.clone()), (tn.clone(), ct.clone())],
                    vec![(sb.clone(), cb.clone()), (tn.clone(), ct.clone())],
                    vec![(sb.clone(), cb.clone()), (st.clone(), ct.clone())],
                    // interrupted merge: one of the two old files already removed
                    vec![(st.clone(), ct.clone())],
                    vec![(sb.clone(), cb.clone())],
                    vec![(format!("merge_{:04x}-{:04x}", l.0, l.1), junk(10))],
                ];
                if q && li % 2 == 1 {
                    variants.truncate(6);
                }
                for (vi, v) in variants.into_iter().enumerate() {
                    let names: Vec<String> = v.iter().map(|x| x.0.clone()).collect();
                    go(w, v, &leaves, &[], format!("shards {leaves:x?} plus {names:?} (variant {vi})"))?;
                }
            }
            // several at once
            let mut v: Vec<(String, Vec<u8>)> = vec![];
            let mut ok = true;
            for l in &leaves {
                if l.1 - l.0 < 2 * END / CELLS {
                    ok = false;
                }
            }
            if ok {
                let sub: Vec<Span> = leaves.iter().flat_map(|l| [(l.0, (l.0 + l.1) / 2), ((l.0 + l.1) / 2, l.1)]).collect();
                let f2 = match build(w, &sub, &cf, &m) {
                    Ok(f) => f,
                    Err(e) => return fail(w, &format!("shape {sub:x?}"), e),
                };
                for (i, s) in sub.iter().enumerate() {
                    if i % 3 != 2 {
                        v.push((name(*s), f2[&name(*s)].clone()));
                    }
                }
                v.push(("bottom_0000-0001".into(), vec![1]));
                go(w, v, &leaves, &[], format!("shards {leaves:x?} plus leftovers everywhere"))?;
            }
            // the store's own files only: everything else stays
            go(
                w,
                vec![("README".into(), b("hello")), ("shardX".into(), b("x"))],
                &leaves,
                &["README".into(), "shardX".into()],
                format!("shards {leaves:x?} plus unrelated files"),
            )?;
            Ok(())
        }));
    }
    // the number of shards a store starts with, for every expected number of keys around the places where it changes
    let per = 32768 * 9 / 10usize;
    let mut exp: Vec<usize> = vec![0, 1, 1_000, 100_000, 1_000_000];
    for s in 0..t.pick(6, 8) {
        let n = per << s;
        exp.extend([n - 3, n - 1, n, n + 1, n + 3, n + (n >> 1)]);
    }
    for e in exp {
        let keys = keys.clone();
        us.push(unit(format!("a store for {e} keys"), move |w| {
            let what = format!("a store opened for {e} keys");
            w.what = what.clone();
            w.add("initial divisions", 1);
            let dir = w.dir(0);
            let d2 = dir.clone();
            let (r, out) = w.session(Cfg { dir, max_steps: 50_000_000, ..Default::default() }, || initial(&d2, e, &keys));
            match r {
                Ok(h) if out.panics.is_empty() => {
                    w.state(h);
                    Ok(())
                }
                Ok(_) => w.check(viol(format!("init:{e}"), format!("{what} => panic {:?}", out.panics))),
                Err(x) => w.check(viol(format!("init:{e}"), format!("{what} => {x}"))),
            }
        }));
    }
    let _: Option<Range<u32>> = None;
    us
}

/// A new store for `e` keys: equal shards that cover everything, a power of two of them, enough of them but not
/// more than twice what is needed; merging leaves them alone; opening it for any other number of keys keeps them.
fn initial(dir: &str, e: usize, keys: &Keys) -> Result<u64, String> {
    let cf = Config { expected_number_of_keys: e, ..cfg(BIG, BIG) };
    let db = open(dir, &cf)?;
    let mut m = M::default();
    for c in 0..CELLS {
        for k in keys.of((c * (END / CELLS), (c + 1) * (END / CELLS)), 2) {
            let v = val(b'a' + (c % 26) as u8, 9);
            let o = Set(k.clone(), v);
            let r = ex(&db, &o, &[]);
            if !m.accept(&o, &r, &[]) {
                close(db);
                return Err(format!("{} returned {}", pop(&o), pres(&r)));
            }
        }
    }
    let ops: Vec<Op> = m.kv.keys().map(|k| Get(k.clone())).collect();
    let uni = Uni::of(&ops);
    let r = (|| {
        let (sp, other) = listing(dir);
        let n = sp.len() as u32;
        if !other.is_empty() {
            return Err(format!("other files: {other:?}"));
        }
        if !n.is_power_of_two() || sp.iter().enumerate().any(|(i, s)| *s != (i as u32 * (END / n), (i as u32 + 1) * (END / n))) {
            return Err(format!("the shards are {sp:x?}"));
        }
        // a shard is meant for 90% of its 32768 places
        let need = (e as f64 / 29491.0).max(1.0);
        if (n as f64) < need - 0.01 || n as f64 > 2.0 * need + 0.01 {
            return Err(format!("{n} shards where {need:.3} are needed"));
        }
        contents(&db, &m, &uni, "after filling it")?;
        let r = ex(&db, &Merge(40_000), &[]);
        if r != Res::Bool(false) || listing(dir).0 != sp {
            return Err(format!("merging returned {} and left {:x?} of {sp:x?}", pres(&r), listing(dir).0));
        }
        contents(&db, &m, &uni, "after merging")?;
        if nshards(&db)? != sp.len() {
            return Err(format!("statistics report {} shards instead of {}", nshards(&db)?, sp.len()));
        }
        Ok(sp)
    })();
    close(db);
    let sp = r?;
    for o in [0usize, 1_000_000] {
        let db = open(dir, &Config { expected_number_of_keys: o, ..cfg(BIG, BIG) })?;
        let r = contents(&db, &m, &uni, "after reopening for another number of keys").and_then(|_| {
            if listing(dir).0 != sp {
                return Err(format!("opening it for {o} keys left {:x?} of {sp:x?}", listing(dir).0));
            }
            Ok(())
        });
        close(db);
        r?;
    }
    Ok(hash_s(&format!("{sp:?}")))
}
