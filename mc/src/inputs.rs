//! Properties about unusual inputs: big values, equal and overlapping names, colliding hashes, oversized
//! keys and values, typed wrappers.
use crate::conc;
use crate::fw::*;
use crate::model::{pushed, short, Uni, M};
use crate::seq::{self, Prog};
use crate::util::*;
use candystore::{Config, MAX_KEY_SIZE, MAX_VALUE_SIZE};
use drv::{Idx, Op, Res, E, V};
use std::sync::Arc;
use Op::*;

/// contents without a period, so that misplaced, repeated or missing chunks change them
fn blob(seed: u8, n: usize) -> V {
    (0..n as u32).map(|i| ((i ^ (seed as u32) << 20).wrapping_mul(2654435761) >> 15) as u8).collect()
}
fn both(v: Vec<Prog>) -> Vec<Prog> {
    let mut o = vec![];
    for p in v {
        o.push(p.clone());
        o.push(p.eager());
    }
    o
}

// ------------------------------------------------------------------ C14
pub fn c14(t: Tier) -> Vec<Unit> {
    const M: usize = MAX_VALUE_SIZE;
    let k = b("B");
    let mut al: Vec<Op> = [0, 1, M - 1, M, M + 1, 2 * M - 1, 2 * M, 2 * M + 1, 3 * M]
        .iter()
        .enumerate()
        .map(|(i, n)| BSet(k.clone(), blob(i as u8, *n)))
        .collect();
    al.push(BRemove(k.clone()));
    al.push(BGet(k.clone()));
    al.push(BSet(b(""), blob(77, M + 2)));
    al.push(BSet(b("\x07"), blob(78, 0)));
    al.push(BRemove(b("")));
    al.push(Set(k.clone(), val(b'1', 9)));
    al.push(LSet(k.clone(), k.clone(), val(b'2', 9)));
    al.push(Reopen);
    let mut ps = vec![];
    for (n, c) in [("plain", cfg(BIG, BIG)), ("split", cfg(300_000, BIG)), ("compact", cfg(BIG, 50_000)), ("both", cfg(200_000, 50_000))] {
        ps.push(Prog::new(&format!("big-{n}"), c.clone(), vec![], al.clone(), t.pick(2, 4)).whole());
        let mut red: Vec<Op> = al.iter().filter(|o| !matches!(o, BGet(_) | LSet(..) | Set(..))).cloned().collect();
        red.retain(|o| if let BSet(_, v) = o { [0, 1, M, M + 1, 2 * M, M + 2].contains(&v.len()) } else { true });
        ps.push(Prog::new(&format!("big3-{n}"), c, vec![BSet(k.clone(), blob(200, 2 * M + 5))], red, t.pick(3, 4)).whole());
    }
    ps.sort_by_key(|p| p.depth);
    seq::units(both(ps), 50)
}

// ------------------------------------------------------------------ C31
pub fn c31(t: Tier) -> Vec<Unit> {
    const M: usize = MAX_VALUE_SIZE;
    let (k, n) = (b("B"), b("N"));
    let al = vec![
        BSet(k.clone(), blob(1, 30)),
        BSet(k.clone(), blob(2, M + 1)),
        BSet(k.clone(), blob(3, 3 * M)),
        BSet(k.clone(), vec![]),
        BRemove(k.clone()),
        BSet(n.clone(), blob(4, M + 3)),
    ];
    let near = vec![Set(k.clone(), val(b'1', 9)), BSet(n.clone(), blob(5, 40))];
    let mut ps = vec![];
    for (nm, c) in [("plain", cfg(BIG, BIG)), ("split", cfg(200_000, BIG)), ("compact", cfg(BIG, 50_000)), ("both", cfg(200_000, 50_000))] {
        for (i, old) in [None, Some(0), Some(40), Some(M + 7), Some(3 * M + 5)].into_iter().enumerate() {
            let mut init = near.clone();
            if let Some(l) = old {
                init.push(BSet(k.clone(), blob(10 + i as u8, l)));
            }
            let p = crate::crash::CProg::new(&format!("crash-big-{nm}-{i}"), c.clone(), init, al.clone(), t.pick(2, 3));
            ps.push(p.clone());
            if nm != "plain" {
                ps.push(p.eager());
            }
        }
    }
    crate::crash::units(ps, 1)
}

// ------------------------------------------------------------------ C15
fn cat(a: &[u8], c: &[u8]) -> V {
    [a, c].concat()
}
/// the 8 bytes by which items and chains refer to list l
fn list_ref(l: &[u8]) -> V {
    use siphasher::sip128::{Hasher128, SipHasher24};
    use std::hash::Hasher;
    let mut h = SipHasher24::new_with_key(&SEED);
    h.write(&cat(l, &[3]));
    h.finish128().h1.to_le_bytes().to_vec()
}
pub fn c15(t: Tier) -> Vec<Unit> {
    let first = 0x8000_0000_0000_0000u64.to_le_bytes();
    let lph = list_ref;
    let x = b("x");
    let typed7 = cat(&7u32.to_le_bytes(), &3u32.to_le_bytes());
    let mut pairs: Vec<(V, V)> = vec![(x.clone(), b("")), (x.clone(), b("xx")), (typed7.clone(), cat(&typed7, &[2]))];
    for ns in 0u8..9 {
        pairs.push((x.clone(), vec![b'x', ns]));
        pairs.push((vec![], vec![ns]));
        if ns > 0 {
            pairs.push((vec![b'x', ns], vec![b'x', ns % 8 + 1]));
        }
    }
    pairs.push((x.clone(), cat(&x, &first)));
    pairs.push((x.clone(), cat(&cat(&x, &first), &[7])));
    pairs.push((x.clone(), cat(&x, &lph(&x))));
    pairs.push((x.clone(), cat(&cat(&x, &lph(&x)), &[4])));
    pairs.push((x.clone(), cat(&lph(&x), &first)));
    pairs.push((x.clone(), cat(&cat(&lph(&x), &first), &[5])));
    pairs.push((lph(&x), x.clone()));
    let v = |c| val(c, 12);
    let mut ps = vec![];
    for (i, (m, n)) in pairs.iter().enumerate() {
        let (m, n) = (m.clone(), n.clone());
        let al = vec![
            Set(m.clone(), v(b'1')),
            Set(n.clone(), v(b'2')),
            Remove(m.clone()),
            Remove(n.clone()),
            LSet(m.clone(), n.clone(), v(b'3')),
            LSet(n.clone(), m.clone(), v(b'4')),
            LSet(m.clone(), m.clone(), v(b'5')),
            LRemove(m.clone(), n.clone()),
            LDiscard(m.clone()),
            QPushT(m.clone(), v(b'6')),
            QPushH(n.clone(), v(b'a')),
            QPopH(m.clone()),
            QDiscard(m.clone()),
            TSet(7, "typed".into()),
            TRemove(7),
            LPopH(n.clone()),
        ];
        let d = if i < 12 || t == Tier::Thorough { 3 } else { 2 };
        let all = vec![
            Set(m.clone(), v(b'r')),
            Set(n.clone(), v(b's')),
            LSet(m.clone(), n.clone(), v(b't')),
            LSet(m.clone(), m.clone(), v(b'T')),
            LSet(n.clone(), n.clone(), v(b'u')),
            LSet(n.clone(), m.clone(), v(b'U')),
            QPushT(m.clone(), v(b'v')),
            QPushT(n.clone(), v(b'w')),
            TSet(7, "seven".into()),
        ];
        ps.push(Prog::new(&format!("names-{i}"), cfg(BIG, BIG), vec![], al.clone(), d).whole());
        ps.push(Prog::new(&format!("names-{i}-full"), cfg(BIG, BIG), all.clone(), al.clone(), t.pick(2, 3)).whole());
        ps.push(Prog::new(&format!("names-{i}-both"), cfg(200, 60), all, al.clone(), t.pick(1, 3)).whole().eager());
        // big values share their names with queues
        let al = vec![
            BSet(m.clone(), v(b'1')),
            BSet(n.clone(), v(b'2')),
            BRemove(m.clone()),
            Set(m.clone(), v(b'3')),
            LSet(n.clone(), m.clone(), v(b'4')),
            LDiscard(n.clone()),
            TSet(7, "typed".into()),
            Remove(m.clone()),
        ];
        ps.push(Prog::new(&format!("names-{i}-big"), cfg(BIG, BIG), vec![], al, t.pick(3, 4)).whole());
    }
    ps.sort_by_key(|p| p.depth);
    let mut us = seq::units(ps, 400);
    // the same name in all namespaces, by several threads
    let mut ks = vec![];
    for (i, m) in [b("x"), typed7].iter().enumerate() {
        let al = vec![
            Set(m.clone(), v(b'1')),
            Remove(m.clone()),
            Replace(m.clone(), v(b'2'), None),
            LSet(m.clone(), m.clone(), v(b'3')),
            LPopH(m.clone()),
            LDiscard(m.clone()),
            QPushT(m.clone(), v(b'4')),
            QPopH(m.clone()),
            QDiscard(m.clone()),
            TSet(7, "typed".into()),
            TRemove(7),
        ];
        let full = vec![Set(m.clone(), v(b'r')), LSet(m.clone(), m.clone(), v(b's')), LSet(m.clone(), b("y"), v(b't')), QPushT(m.clone(), v(b'u')), QPushT(m.clone(), v(b'v')), TSet(7, "seven".into())];
        for (n, c, init) in [("empty", cfg(BIG, BIG), vec![]), ("full", cfg(BIG, BIG), full.clone()), ("both", cfg(160, 40), full.clone())] {
            for th in conc::combos(&conc::seqs(&al, 1), 2) {
                let mut p = conc::KProg::new(&format!("names-threads-{i}-{n}"), c.clone(), init.clone(), th, t.pick(if n == "both" { 1 } else { 2 }, 3));
                p.visits = t.pick(if n == "both" { 2 } else { 6 }, 8);
                ks.push(p);
            }
        }
    }
    us.extend(conc::units(ks, 4));
    us
}

// ------------------------------------------------------------------ C16
// Real collisions of the default hash seed found by tools/collide: equal row and signature.
fn hx(p: &str, n: u64) -> V {
    format!("{p}{n:x}").into_bytes()
}
fn ck(n: u64) -> V {
    hx("c", n)
}

/// three keys with the same row and signature
pub fn triple() -> Vec<V> {
    [0x66c4314, 0x831cc71, 0x90e42b8].into_iter().map(ck).collect()
}
include!("zero_sigs.rs");

pub fn c16(t: Tier) -> Vec<Unit> {
    let v = |c| val(c, 20);
    let mut ps = vec![];
    let triples: [[u64; 3]; 4] = [
        [0x66c4314, 0x831cc71, 0x90e42b8],
        [0x4db6b6e, 0xa2bd644, 0xc565880],
        [0x6e53250, 0x74fafdf, 0xfd3e18f],
        [0x1da7515, 0x495bde4, 0xc1b74e9],
    ];
    let pairs: [[u64; 2]; 3] = [[0xb2ccf96, 0xedbb41a], [0x1cb9155, 0xb81f52b], [0x1ca6971, 0xb9eff06]];
    for g in triples.iter().map(|g| g.to_vec()).chain(pairs.iter().map(|g| g.to_vec())) {
        for w in g.windows(2) {
            let (a, b) = (ph(&user_key(&ck(w[0]))), ph(&user_key(&ck(w[1]))));
            assert_eq!((a.1, a.2), (b.1, b.2), "not a collision");
        }
    }
    let confs = [("plain", cfg(BIG, BIG)), ("split", cfg(100, BIG)), ("compact", cfg(BIG, 40)), ("both", cfg(160, 60))];
    for (gi, g) in triples.iter().enumerate() {
        let (a, c, d) = (ck(g[0]), ck(g[1]), ck(g[2]));
        let al = vec![
            Set(a.clone(), v(b'x')),
            Set(a.clone(), v(b'y')),
            Set(c.clone(), v(b'x')),
            Set(d.clone(), v(b'x')),
            Remove(a.clone()),
            Remove(c.clone()),
            Replace(a.clone(), v(b'z'), Some(v(b'x'))),
            Replace(c.clone(), v(b'q'), None),
            Goc(c.clone(), v(b'w')),
            Goc(d.clone(), v(b'w')),
            Merge(40_000),
            Reopen,
        ];
        let full = vec![Set(a.clone(), v(b'1')), Set(c.clone(), v(b'2')), Set(d.clone(), v(b'3'))];
        for (n, cf) in &confs {
            ps.push(Prog::new(&format!("collide-{gi}-{n}"), cf.clone(), vec![], al.clone(), t.pick(if gi < 2 { 3 } else { 2 }, 4)).whole());
            ps.push(Prog::new(&format!("collide-{gi}-{n}-full"), cf.clone(), full.clone(), al.clone(), t.pick(if gi < 2 { 3 } else { 2 }, 4)).whole());
        }
    }
    for (gi, g) in pairs.iter().enumerate() {
        let (a, c) = (ck(g[0]), ck(g[1]));
        let al = vec![
            Set(a.clone(), v(b'x')),
            Set(c.clone(), v(b'y')),
            Set(c.clone(), v(b'z')),
            Remove(a.clone()),
            Goc(c.clone(), v(b'w')),
            Replace(a.clone(), v(b'z'), Some(v(b'x'))),
            Merge(40_000),
            Reopen,
        ];
        for (n, cf) in &confs {
            ps.push(Prog::new(&format!("collide-near-{gi}-{n}"), cf.clone(), vec![], al.clone(), t.pick(3, 4)).whole());
        }
    }
    // items of one list
    let items: [[u64; 3]; 3] = [[0x4d29a80, 0x7a893f6, 0xdae64ab], [0x37dc6e, 0x5d81737, 0xf729b9c], [0x210a669, 0x7597bb6, 0x9b8c890]];
    let l = b("L");
    let vl = |c| val(c, 12);
    let lal = |l: &V, x: &V, y: &V, z: &V| {
        vec![
            LSet(l.clone(), x.clone(), vl(b'1')),
            LSet(l.clone(), y.clone(), vl(b'2')),
            LSet(l.clone(), z.clone(), vl(b'3')),
            LSet(l.clone(), x.clone(), vl(b'4')),
            LProm(l.clone(), x.clone(), vl(b'5')),
            LRemove(l.clone(), x.clone()),
            LRemove(l.clone(), y.clone()),
            LReplace(l.clone(), y.clone(), vl(b'6'), None),
            LGoc(l.clone(), z.clone(), vl(b'8')),
            LPopH(l.clone()),
            LPopT(l.clone()),
            LCompact(l.clone(), 1),
            LDiscard(l.clone()),
        ]
    };
    for (gi, g) in items.iter().enumerate() {
        let (x, y, z) = (hx("i", g[0]), hx("i", g[1]), hx("i", g[2]));
        let init = vec![LSet(l.clone(), x.clone(), vl(b'1')), LSet(l.clone(), y.clone(), vl(b'2')), LSet(l.clone(), z.clone(), vl(b'3'))];
        for (n, cf) in [("plain", cfg(BIG, BIG)), ("split", cfg(400, BIG)), ("compact", cfg(BIG, 60))] {
            ps.push(Prog::new(&format!("collide-list-{gi}-{n}"), cf.clone(), vec![], lal(&l, &x, &y, &z), t.pick(2, 4)).whole());
            ps.push(Prog::new(&format!("collide-list-{gi}-{n}-full"), cf, init.clone(), lal(&l, &x, &y, &z), t.pick(if gi == 0 { 3 } else { 2 }, 4)).whole());
        }
    }
    // a key of one kind colliding with one of another kind
    let q = |n| hx("q", n);
    let ll = |n| hx("l", n);
    let cross: Vec<(&str, Vec<Op>)> = vec![
        ("key-item", vec![Set(ck(0x347d8a), v(b'1')), LSet(l.clone(), hx("i", 0x3635e3), v(b'2')), LRemove(l.clone(), hx("i", 0x3635e3)), Remove(ck(0x347d8a))]),
        ("key-item2", vec![Set(ck(0x273cfb), v(b'1')), LSet(l.clone(), hx("i", 0x1876b7), v(b'2')), LPopH(l.clone()), Remove(ck(0x273cfb))]),
        ("key-list", vec![Set(ck(0x43238), v(b'1')), LSet(ll(0x1fa322), b("x"), v(b'2')), LPopT(ll(0x1fa322)), Remove(ck(0x43238))]),
        ("key-list2", vec![Set(ck(0x1d567f), v(b'1')), LSet(ll(0x2d6cd1), b("x"), v(b'2')), LDiscard(ll(0x2d6cd1)), Remove(ck(0x1d567f))]),
        ("key-queue", vec![Set(ck(0x68c3d), v(b'1')), QPushT(q(0x3c7355), v(b'2')), QPopH(q(0x3c7355)), Remove(ck(0x68c3d))]),
        ("key-queue2", vec![Set(ck(0x11b4b3), v(b'1')), QPushH(q(0x35effc), v(b'2')), QDiscard(q(0x35effc)), Remove(ck(0x11b4b3))]),
        ("key-element", vec![Set(ck(0x5ead5), v(b'1')), QPushT(q(0x2e425f), v(b'2')), QPopH(q(0x2e425f)), Remove(ck(0x5ead5))]),
        ("key-chain", vec![Set(ck(0x226229), v(b'1')), LSet(ll(0x36b0a9), b("x"), v(b'2')), LPopH(ll(0x36b0a9)), Remove(ck(0x226229))]),
        ("items-of-two-lists", vec![LSet(b("L"), hx("i", 0x1e2727), v(b'1')), LSet(b("M"), hx("j", 0x6d433), v(b'2')), LPopH(b("M")), LRemove(b("L"), hx("i", 0x1e2727)), LPopH(b("L"))]),
        ("items-of-two-lists2", vec![LSet(b("L"), hx("i", 0x12e18a), v(b'1')), LSet(b("M"), hx("j", 0x33eea0), v(b'2')), LDiscard(b("M")), LRemove(b("L"), hx("i", 0x12e18a)), LCompact(b("L"), 0)]),
        ("item-list", vec![LSet(l.clone(), hx("i", 0x135a7c), v(b'1')), LSet(ll(0xd48fd), b("x"), v(b'2')), LDiscard(ll(0xd48fd)), LPopH(l.clone())]),
        ("item-chain", vec![LSet(l.clone(), hx("i", 0x61dcc), v(b'1')), LSet(ll(0x69774), b("x"), v(b'2')), LDiscard(ll(0x69774)), LPopH(l.clone())]),
        ("item-chain2", vec![LSet(l.clone(), hx("i", 0x1d83dc), v(b'1')), LSet(ll(0x21e764), b("x"), v(b'2')), LPopT(ll(0x21e764)), LPopH(l.clone())]),
        ("item-element", vec![LSet(l.clone(), hx("i", 0x2985f8), v(b'1')), QPushT(q(0x20d49a), v(b'2')), QPopT(q(0x20d49a)), LPopH(l.clone())]),
    ];
    for (n, mut al) in cross {
        al.push(Reopen);
        al.push(Merge(40_000));
        for (m, cf) in [("plain", cfg(BIG, BIG)), ("split", cfg(120, BIG)), ("both", cfg(160, 40))] {
            ps.push(Prog::new(&format!("collide-{n}-{m}"), cf, vec![], al.clone(), t.pick(3, 5)).whole());
        }
    }
    // keys whose raw signature is 0 (the mark of a free slot), 1 or the largest
    for (i, (seed, kind, names)) in extreme().into_iter().enumerate() {
        for n in &names {
            let full = match kind {
                0 => user_key(n.as_bytes()),
                1 => cat(n.as_bytes(), &cat(&list_ref(b"L"), &[4])),
                _ => cat(n.as_bytes(), &[3]),
            };
            assert!(ph(&full).2.wrapping_add(1) <= 2, "not an extreme signature");
        }
        let k: Vec<V> = names.iter().map(|n| b(n)).collect();
        let n = |i: usize| k[i % k.len()].clone();
        let mut al = match kind {
            0 => vec![
                Set(n(0), v(b'1')),
                Set(n(0), v(b'2')),
                Set(n(1), v(b'3')),
                Remove(n(0)),
                Remove(n(1)),
                Goc(n(0), v(b'4')),
                Replace(n(0), v(b'5'), Some(v(b'1'))),
                Set(n(2), v(b'6')),
            ],
            1 => lal(&l, &n(0), &n(1), &n(2)),
            _ => {
                let mut al = lal(&n(0), &b("x"), &b("y"), &b("z"));
                al.push(LSet(n(1), b("x"), v(b'7')));
                al
            }
        };
        al.push(Merge(40_000));
        al.push(Reopen);
        for (m, cf) in &confs {
            let mut cf = cf.clone();
            cf.hash_seed = seed;
            ps.push(Prog::new(&format!("extreme-{i}-{m}"), cf, vec![], al.clone(), t.pick(if kind == 0 { 3 } else { 2 }, if kind == 0 { 4 } else { 3 })).whole());
        }
    }
    let mut all = both(ps);
    all.sort_by_key(|p| p.depth);
    seq::units(all, 200)
}

// ------------------------------------------------------------------ C21
struct Sizes {
    name: String,
    cfg: Config,
    cases: Vec<Op>,
    then: Vec<Op>,
}
fn raw_count(db: &drv::Db) -> Result<usize, String> {
    match ex(db, &RawCount, &[]) {
        Res::Num(n) => Ok(n),
        r => Err(format!("iterating failed: {}", pres(&r))),
    }
}
/// largest key and value (as the caller sees them) of an operation that writes; None: a read or removal
fn written(op: &Op) -> Option<(usize, usize)> {
    Some(match op {
        Set(k, v) | Goc(k, v) | Replace(k, v, _) => (k.len(), v.len()),
        TSet(_, v) | TGoc(_, v) | TReplace(_, v, _) => (4, v.len() + 4),
        LSet(l, k, v) | LProm(l, k, v) | LGoc(l, k, v) | LReplace(l, k, v, _) => (l.len().max(k.len()), v.len()),
        QPushH(q, v) | QPushT(q, v) => (q.len(), v.len()),
        QExt(q, vs) => (q.len(), vs.iter().map(|v| v.len()).max().unwrap_or(0)),
        BSet(k, v) => (k.len(), v.len().min(MAX_VALUE_SIZE)),
        _ => return None,
    })
}
fn size_case(dir: &str, s: &Sizes, op: &Op, then: Option<&Op>) -> Result<u64, String> {
    let v = |c| val(c, 8);
    // a little of everything
    let init = [
        Set(b("a"), v(b'1')),
        LSet(b("L"), b("x"), v(b'2')),
        LSet(b("L"), b("y"), v(b'3')),
        QExt(b("Q"), vec![v(b'4'), v(b'5')]),
        BSet(b("B"), v(b'6')),
        TSet(7, "seven".into()),
    ];
    let mut ops: Vec<Op> = init.to_vec();
    ops.push(op.clone());
    ops.extend(then.cloned());
    let uni = Uni::of(&ops);
    let mut m = M::default();
    let mut idxs = vec![];
    let db = open(dir, &s.cfg)?;
    let run = |m: &mut M, idxs: &mut Vec<usize>, op: &Op| -> Result<(), String> {
        let before = m.clone();
        let (raw0, st0) = (raw_count(&db)?, drv_obs(&db, &uni)?);
        let r = ex(&db, op, idxs);
        match (&r, written(op)) {
            (Res::Panic(e), _) => return Err(format!("{} panicked: {e}", pop(op))),
            (Res::Err(e), w) => {
                if !matches!(e, E::KeyTooLong(_) | E::ValueTooLong(_) | E::NoFit(..)) {
                    return Err(format!("{} failed with an unspecific error: {e:?}", pop(op)));
                }
                let Some((k, v)) = w else { return Err(format!("{} returned {}", pop(op), pres(&r))) };
                if k <= MAX_KEY_SIZE && v <= MAX_VALUE_SIZE && k + v + 64 <= s.cfg.max_shard_size as usize {
                    return Err(format!("{} was rejected with {e:?} although key and value are within the limits", pop(op)));
                }
                let raw1 = raw_count(&db)?;
                if raw1 != raw0 {
                    return Err(format!("{} was rejected with {e:?} but the number of stored entries went from {raw0} to {raw1}", pop(op)));
                }
                let o = drv_obs(&db, &uni)?;
                if o != st0 {
                    return Err(format!("{} was rejected with {e:?} but the contents went from {st0:?} to {o:?}", pop(op)));
                }
            }
            _ => {
                if let (Set(..) | Goc(..) | Replace(..), Some((k, v))) = (op, written(op)) {
                    if k > MAX_KEY_SIZE || v > MAX_VALUE_SIZE {
                        return Err(format!("{} beyond the documented limits was not rejected but returned {}", pop(op), pres(&r)));
                    }
                }
                pushed(op, &r, idxs);
                if !m.accept(op, &r, idxs) {
                    return Err(format!("{} returned {} in state {}", pop(op), pres(&r), short(&before)));
                }
            }
        }
        Ok(())
    };
    let mut res = Ok(());
    for op in &ops {
        res = run(&mut m, &mut idxs, op);
        if res.is_err() {
            break;
        }
    }
    let chk = |db: &drv::Db, when: &str| -> Result<(), String> {
        let o = obs(db, &uni, true, true).map_err(|e| format!("{when}: {e}"))?;
        if o.m != m {
            return Err(format!("{when}: store contains {} expected {}", short(&o.m), short(&m)));
        }
        Ok(())
    };
    let res = res.and_then(|_| chk(&db, "afterwards"));
    close(db);
    res?;
    let db = open(dir, &s.cfg)?;
    let r = chk(&db, "after reopening");
    close(db);
    r?;
    Ok(hash_m(&m))
}
/// contents, lengths and ranges, printable
fn drv_obs(db: &drv::Db, uni: &Uni) -> Result<String, String> {
    let o = obs(db, uni, true, true)?;
    let mut s = format!("{} {:?} {:?}", short(&o.m), o.llen, o.qlen);
    for q in &uni.queues {
        s += &format!(" {:?}", ex(db, &QRange(q.clone()), &[]));
    }
    Ok(s)
}
pub fn c21(t: Tier) -> Vec<Unit> {
    const MK: usize = MAX_KEY_SIZE;
    let kl = [0, 1, 100, MK - 1, MK, MK + 1, 16374, 16375, 0x3ffd, 0x3ffe, 0x3fff, 0x4000, 0xffff, 0x10000, 70000];
    let vl = [0, 1, 100, 65279, 65280, 65281, 65519, 65520, 65526, 65527, 65528, 0xfffe, 0xffff, 0x10000, 0x20000, 200_000];
    let key = |n: usize| vec![b'k'; n];
    let mut us = vec![];
    let mut progs = vec![];
    for max in [200u32, 4000, 70_000, 90_000, BIG] {
        let mut cases: Vec<Op> = vec![];
        for &k in &kl {
            for &v in &vl {
                // the cross product only where one of the two is ordinary or both are extreme
                let (k, v) = (key(k), blob(3, v));
                let r = v.clone();
                cases.extend([
                    Set(k.clone(), r.clone()),
                    Goc(k.clone(), r.clone()),
                    Replace(k.clone(), r.clone(), None),
                    LSet(b("L"), k.clone(), r.clone()),
                    LSet(b("N"), k.clone(), r.clone()),
                    LSet(k.clone(), b("x"), r.clone()),
                    LProm(b("L"), k.clone(), r.clone()),
                    LGoc(b("L"), k.clone(), r.clone()),
                    LReplace(b("L"), k.clone(), r.clone(), None),
                    QPushH(k.clone(), r.clone()),
                    QPushT(k.clone(), r.clone()),
                    QExt(k.clone(), vec![b("e"), r.clone(), b("f")]),
                    QExt(k.clone(), vec![r.clone()]),
                    BSet(k.clone(), r.clone()),
                ]);
            }
            let k = key(k);
            cases.extend([
                Get(k.clone()),
                Contains(k.clone()),
                Remove(k.clone()),
                LGet(b("L"), k.clone()),
                LGet(k.clone(), b("x")),
                LRemove(b("L"), k.clone()),
                LRemove(k.clone(), b("x")),
                LIter(k.clone()),
                LIterB(k.clone()),
                LPopH(k.clone()),
                LPopT(k.clone()),
                LPeekH(k.clone()),
                LPeekT(k.clone()),
                LLen(k.clone()),
                LCompact(k.clone(), 0),
                LDiscard(k.clone()),
                QExt(k.clone(), vec![]),
                QPopHI(k.clone()),
                QPopT(k.clone()),
                QPeekH(k.clone()),
                QPeekTI(k.clone()),
                QRemove(k.clone(), Idx::Abs(3)),
                QIter(k.clone()),
                QLen(k.clone()),
                QRange(k.clone()),
                QDiscard(k.clone()),
                BGet(k.clone()),
                BRemove(k.clone()),
            ]);
        }
        for &v in &vl {
            let (v, s) = (blob(4, v), "t".repeat(v));
            cases.extend([
                Set(b("a"), v.clone()),
                Goc(b("a"), v.clone()),
                Replace(b("a"), v.clone(), None),
                Replace(b("a"), v.clone(), Some(val(b'1', 8))),
                Replace(b("a"), v.clone(), Some(v.clone())),
                Replace(b("a"), b("z"), Some(v.clone())),
                TSet(7, s.clone()),
                TSet(8, s.clone()),
                TGoc(8, s.clone()),
                TReplace(7, s.clone(), None),
                LSet(b("L"), b("x"), v.clone()),
                LSet(b("L"), b("y"), v.clone()),
                LProm(b("L"), b("x"), v.clone()),
                LProm(b("L"), b("y"), v.clone()),
                LGoc(b("L"), b("x"), v.clone()),
                LReplace(b("L"), b("x"), v.clone(), None),
                LReplace(b("L"), b("x"), v.clone(), Some(val(b'2', 8))),
                LReplace(b("L"), b("x"), b("z"), Some(v.clone())),
                QPushH(b("Q"), v.clone()),
                QPushT(b("Q"), v.clone()),
                QExt(b("Q"), vec![v.clone(), b("f")]),
                QExt(b("Q"), vec![b("e"), b("f"), v.clone()]),
                BSet(b("B"), v.clone()),
            ]);
        }
        for i in [0usize, 1, 3, usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 2, i64::MAX as usize] {
            cases.push(QRemove(b("Q"), Idx::Abs(i)));
            cases.push(QRemove(b("none"), Idx::Abs(i)));
        }
        for p in [0u32, 1, 49_999, 50_000, 50_001, 100_000, 1_000_000] {
            if (1..50_000).contains(&p) {
                cases.push(Merge(p));
            }
        }
        let then = if t == Tier::Quick {
            vec![]
        } else {
            vec![
                Set(b("k"), val(b'7', 9)),
                LSet(b("L"), b("k"), val(b'8', 9)),
                LPopT(b("L")),
                QPushT(b("Q"), val(b'9', 9)),
                QPopT(b("Q")),
                BSet(b("B"), blob(9, 100)),
                LDiscard(b("L")),
                QDiscard(b("Q")),
            ]
        };
        let mut c = cfg(max, BIG);
        progs.push(Sizes { name: format!("sizes-{max}"), cfg: c.clone(), cases: cases.clone(), then });
        if max > 50_000 {
            c.min_compaction_threashold = 30_000;
            progs.push(Sizes { name: format!("sizes-{max}-compacting"), cfg: c, cases, then: vec![] });
        }
    }
    for s in progs {
        let s = Arc::new(s);
        let per = s.then.len() + 1;
        let total = s.cases.len() * per;
        let chunk = 300;
        let mut i = 0;
        while i < total {
            let e = (i + chunk).min(total);
            let s = s.clone();
            us.push(unit(format!("{} cases {i}..{e} of {total}", s.name), move |w| {
                for n in i..e {
                    if w.out_of_time() {
                        break;
                    }
                    let op = &s.cases[n / per];
                    let then = if n % per == 0 { None } else { Some(&s.then[n % per - 1]) };
                    let dir = w.dir(0);
                    let d2 = dir.clone();
                    let what = format!("[{}] {}{}", pcfg(&s.cfg), pop(op), then.map_or(String::new(), |o| format!("; {}", pop(o))));
                    w.what = format!("{} {what}", s.name);
                    let (r, out) = w.session(mcrt::rt::Cfg { dir, ..Default::default() }, || size_case(&d2, &s, op, then));
                    let r = match r {
                        Ok(_) if !out.panics.is_empty() => Err(format!("panic in a background thread: {:?}", out.panics)),
                        r => r,
                    };
                    match r {
                        Ok(h) => {
                            w.state(h);
                        }
                        Err(e) => w.check(viol(format!("{}:{:016x}", s.name, hash_s(&what)), format!("{what} => {e}")))?,
                    }
                    w.add("cases", 1);
                    if n == total / 2 {
                        w.sample(|| what.clone());
                    }
                }
                Ok(())
            }));
            i = e;
        }
    }
    us
}

// ------------------------------------------------------------------ C29
pub fn c29(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    let confs: Vec<(&str, Config)> = match t {
        Tier::Quick => vec![("plain", cfg(BIG, BIG)), ("both", cfg(400, 60))],
        Tier::Thorough => vec![("plain", cfg(BIG, BIG)), ("split", cfg(400, BIG)), ("compact", cfg(BIG, 60)), ("both", cfg(400, 60))],
    };
    let types = drv::typed::types();
    let n = [drv::typed::STORE_OPS, drv::typed::LIST_OPS, drv::typed::DEQUE_OPS];
    for (ti, (tn, _)) in types.iter().enumerate() {
        for kind in 0..3usize {
            for (ci, (cn, cf)) in confs.iter().enumerate() {
                let depth = t.pick(if ci == 0 && ti < 4 { 3 } else { 2 }, if ti < 2 && ci == 0 { 4 } else { 3 });
                let total: u64 = (1..=depth).map(|d| (n[kind] as u64).pow(d)).sum();
                let mut s = 0;
                while s < total {
                    let e = (s + 400).min(total);
                    let (cf, tn, cn) = (cf.clone(), *tn, *cn);
                    let k = n[kind] as u64;
                    us.push(unit(format!("{tn} kind {kind} {cn} sequences {s}..{e} of {total}"), move |w| {
                        let run = drv::typed::types()[ti].1;
                        for x in s..e {
                            if w.out_of_time() {
                                break;
                            }
                            let (mut x, mut len, mut c) = (x, 1, k);
                            while x >= c {
                                x -= c;
                                c *= k;
                                len += 1;
                            }
                            let mut codes = vec![];
                            for _ in 0..len {
                                codes.push((x % k) as u32);
                                x /= k;
                            }
                            let dir = w.dir(0);
                            let d2 = dir.clone();
                            let what = format!("[{}] {tn} {} {codes:?}", pcfg(&cf), ["store", "list", "deque"][kind]);
                            w.what = what.clone();
                            let (r, out) = w.session(mcrt::rt::Cfg { dir, ..Default::default() }, || caught(|| run(&d2, &cf, kind as _, &codes)));
                            let r = match r {
                                Ok(_) if !out.panics.is_empty() => Err(format!("panic in a background thread: {:?}", out.panics)),
                                r => r,
                            };
                            if let Err(e) = r {
                                w.check(viol(format!("typed:{:016x}", hash_s(&what)), format!("{what} => {e}")))?;
                            }
                            w.state(hash_s(&what));
                            w.sample(|| what.clone());
                        }
                        Ok(())
                    }));
                    s = e;
                }
            }
        }
    }
    let of = 64;
    for part in 0..of {
        us.push(unit(format!("values of all type pairs, part {part} of {of} ({} pairs)", drv::typed::isolation_count()), move |w| {
            let dir = w.dir(0);
            let d2 = dir.clone();
            let cf = cfg(BIG, BIG);
            w.what = format!("isolation {part}");
            let (r, _) = w.session(mcrt::rt::Cfg { dir, ..Default::default() }, || caught(|| drv::typed::isolation(&d2, &cf, part, of)));
            match r {
                Ok(n) => w.add("type pairs", n),
                Err(e) => w.check(viol(format!("isolation:{:016x}", hash_s(&e)), e))?,
            }
            Ok(())
        }));
    }
    us
}
fn caught<R: Send>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    mcrt::user(|| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
            Err(format!("panicked: {m}"))
        }
    })
}
