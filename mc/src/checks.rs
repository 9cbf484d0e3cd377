//! The registered properties and their bounded spaces.
use crate::conc::{self, combos, seqs, two_one, KProg};
use crate::crash::{self, CProg};
use crate::fw::*;
use crate::seq::{self, Prog};
use crate::util::*;
use drv::{Idx, Op, V};
use Op::*;

fn both(v: Vec<Prog>) -> Vec<Prog> {
    let mut o = vec![];
    for p in v {
        o.push(p.clone());
        o.push(p.eager());
    }
    o
}

// ------------------------------------------------------------------ C01
fn kv_alpha(a: &[u8], bb: &[u8], n: usize) -> Vec<Op> {
    let (a, bb) = (a.to_vec(), bb.to_vec());
    vec![
        Set(a.clone(), val(b'x', n)),
        Set(a.clone(), val(b'y', n)),
        Set(bb.clone(), val(b'x', n)),
        Remove(a.clone()),
        Replace(a.clone(), val(b'z', n), Some(val(b'x', n))),
        Goc(bb.clone(), val(b'w', n)),
        Reopen,
    ]
}
fn c01(t: Tier) -> Vec<Unit> {
    let a = find_key("a", |s, _, _| s < 0x4000);
    let c = find_key("b", |s, _, _| s >= 0x8000);
    let d = t.pick(5, 7);
    let mut ps = vec![];
    for (nm, cf) in [("plain", cfg(BIG, BIG)), ("split", cfg(100, BIG)), ("compact", cfg(BIG, 40)), ("both", cfg(160, 60))] {
        ps.push(Prog::new(&format!("kv-{nm}"), cf.clone(), vec![], kv_alpha(&a, &c, 20), d));
    }
    let mut us = vec![];
    // values that differ in one place only, at lengths around powers of two; the empty value and the empty key;
    // keys that are prefixes of each other and keys of several bytes that are not text
    for (i, n) in [1usize, 2, 8, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 60000].into_iter().enumerate() {
        let at: Vec<usize> = [0, n / 2, n - 1].into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        let k = a.clone();
        let mut vs: Vec<V> = vec![val(b'x', n)];
        for p in at {
            let mut v = val(b'x', n);
            v[p] ^= 0x55;
            vs.push(v);
        }
        vs.push(val(b'x', n - 1));
        vs.push([val(b'x', n), vec![0]].concat());
        vs.retain(|v| v.len() <= 65000);
        let mut al: Vec<Op> = vs.iter().map(|v| Set(k.clone(), v.clone())).collect();
        for v in &vs[1..] {
            al.push(Replace(k.clone(), v.clone(), Some(vs[0].clone())));
            al.push(Replace(k.clone(), vs[0].clone(), Some(v.clone())));
        }
        al.push(Goc(k.clone(), vs[0].clone()));
        let big = t == Tier::Quick && i > 9;
        us.push(Prog::new(&format!("kv-values-{n}"), cfg(1 << 22, 1 << 22), vec![], al, if big { 1 } else { 2 } + if t == Tier::Quick { 0 } else { 1 }));
    }
    let odd: Vec<V> = vec![vec![], vec![0], vec![0, 0], b("a"), b("aa"), b("aaaaaaaaaaaaaaaa"), vec![1], vec![255; 3], vec![b'k'; 30]];
    let mut al: Vec<Op> = vec![Reopen];
    for (i, k) in odd.iter().enumerate() {
        al.push(Set(k.clone(), if i % 3 == 0 { vec![] } else { val(b'a' + i as u8, i) }));
        al.push(Remove(k.clone()));
        al.push(Replace(k.clone(), vec![], None));
        al.push(Goc(k.clone(), vec![0]));
    }
    for (nm, cf) in [("plain", cfg(BIG, BIG)), ("split", cfg(60, BIG)), ("compact", cfg(BIG, 10))] {
        us.push(Prog::new(&format!("kv-odd-{nm}"), cf, vec![], al.clone(), t.pick(3, 4)));
    }
    us.extend(ps);
    let mut us = seq::units(both(us), 300);
    us.extend(seq::units(rows(t), 30));
    us.extend(seq::units(far(t), 12));
    // every other option of the configuration
    for (nm, mut cf) in options() {
        us.extend(seq::units(vec![Prog::new(&format!("kv-opt-{nm}"), cf.clone(), vec![], kv_alpha(&a, &c, 20), t.pick(2, 4))], 300));
        (cf.max_shard_size, cf.min_compaction_threashold) = (160, 60);
        us.extend(seq::units(vec![Prog::new(&format!("kv-opt-{nm}-small"), cf, vec![], kv_alpha(&a, &c, 20), t.pick(3, 4))], 300));
    }
    us
}
/// configurations that differ from the usual one in one option
fn options() -> Vec<(&'static str, candystore::Config)> {
    let d = || cfg(BIG, BIG);
    vec![
        ("mlock", candystore::Config { mlock_headers: true, ..d() }),
        ("seed0", candystore::Config { hash_seed: [0; 16], ..d() }),
        ("seedff", candystore::Config { hash_seed: [0xff; 16], ..d() }),
        ("locks0", candystore::Config { max_concurrent_list_ops: 0, ..d() }),
        ("locks5", candystore::Config { max_concurrent_list_ops: 5, ..d() }),
        ("locks64", candystore::Config { max_concurrent_list_ops: 64, ..d() }),
        ("threads4", candystore::Config { num_compaction_threads: 4, ..d() }),
        ("threads0", candystore::Config { num_compaction_threads: 0, ..d() }),
        ("truncate", candystore::Config { truncate_up: true, ..d() }),
        ("expect", candystore::Config { expected_number_of_keys: 100_000, ..d() }),
        ("clear", candystore::Config { clear_on_unsupported_version: true, ..d() }),
    ]
}
/// Files of more than 2^24 bytes: positions that need more than three bytes.
fn far(t: Tier) -> Vec<Prog> {
    let v = |i: usize, n: usize| {
        let mut v = vec![b'0' + (i % 10) as u8; n];
        v[..4].copy_from_slice(&(i as u32).to_le_bytes());
        v
    };
    let mut ps = vec![];
    for (nm, n, sz, max, comp) in [("far", 262usize, 65_000usize, 64 << 20, 8 << 20), ("far-split", 262, 65_000, 17_100_000, 8 << 20), ("far-compact", 140, 65_000, 64 << 20, 9 << 20)] {
        let keys: Vec<V> = (0..n).map(|i| format!("far{i}").into_bytes()).collect();
        let mut init: Vec<Op> = keys.iter().enumerate().map(|(i, k)| Set(k.clone(), v(i, sz))).collect();
        if nm == "far-compact" {
            init.extend(keys.iter().enumerate().map(|(i, k)| Set(k.clone(), v(i + 1000, sz))));
        }
        let al = vec![
            Set(keys[0].clone(), v(9000, sz)),
            Set(b("new"), v(9001, 30)),
            Remove(keys[n - 1].clone()),
            Replace(keys[n - 2].clone(), v(9002, 9), None),
            Goc(b("new"), v(9003, sz)),
            LSet(b("L"), b("x"), v(9004, sz)),
            QPushT(b("Q"), v(9005, sz)),
        ];
        ps.push(Prog::new(&format!("kv-{nm}"), cfg(max, comp), init, al, t.pick(1, 2)).whole().eager());
    }
    ps
}
/// Rows with (almost) no room left: their last places, and the split when there is none.
fn rows(t: Tier) -> Vec<Prog> {
    let v = |c| val(c, 9);
    let mut n = 0u64;
    let mut next = |lo: u32, hi: u32| loop {
        let k = format!("r{n}").into_bytes();
        n += 1;
        let (s, r, _) = ph(&user_key(&k));
        if r == 17 && s >= lo && s < hi {
            return k;
        }
    };
    let mut ps = vec![];
    for (nm, hi, cf) in [("low", 0x4000, cfg(BIG, BIG)), ("wide", 0x10000, cfg(BIG, BIG)), ("compact", 0x10000, cfg(BIG, 40))] {
        for have in if t == Tier::Quick { vec![511usize] } else { vec![510, 511, 512] } {
            let keys: Vec<V> = (0..have).map(|_| next(0, hi)).collect();
            let init: Vec<Op> = keys.iter().map(|k| Set(k.clone(), v(b'x'))).collect();
            let (m, o) = (next(0, 0x8000), next(0x8000, 0x10000));
            let al = vec![
                Set(m.clone(), v(b'1')),
                Goc(o.clone(), v(b'2')),
                Set(keys[0].clone(), v(b'3')),
                Remove(keys[256].clone()),
                Remove(keys[have - 1].clone()),
                Replace(keys[have - 1].clone(), v(b'4'), None),
                Get(keys[have - 2].clone()),
                Remove(m.clone()),
                Merge(40_000),
            ];
            ps.push(Prog::new(&format!("kv-row-{nm}-{have}"), cf.clone(), init, al, t.pick(2, 3)).whole().eager());
        }
    }
    ps
}

// ------------------------------------------------------------------ C08
fn list_alpha(l: &V) -> Vec<Op> {
    let (l, x, y) = (l.clone(), b("x"), b("y"));
    let v = |c| val(c, 12);
    vec![
        LSet(l.clone(), x.clone(), v(b'1')),
        LSet(l.clone(), x.clone(), v(b'2')),
        LSet(l.clone(), y.clone(), v(b'1')),
        LSet(l.clone(), b("z"), v(b'3')),
        LProm(l.clone(), x.clone(), v(b'5')),
        LRemove(l.clone(), x.clone()),
        LRemove(l.clone(), y.clone()),
        LReplace(l.clone(), x.clone(), v(b'6'), Some(v(b'1'))),
        LReplace(l.clone(), x.clone(), v(b'7'), None),
        LGoc(l.clone(), y.clone(), v(b'8')),
        LPopH(l.clone()),
        LPopT(l.clone()),
        LCompact(l.clone(), 1),
        LDiscard(l.clone()),
    ]
}
fn c08(t: Tier) -> Vec<Unit> {
    let l = b("L");
    let d = t.pick(4, 5);
    let i = vec![LSet(l.clone(), b("x"), val(b'1', 12)), LSet(l.clone(), b("y"), val(b'2', 12)), LSet(l.clone(), b("z"), val(b'3', 12))];
    let mut us = seq::units(
        both(vec![
            Prog::new("list-empty", cfg(BIG, BIG), vec![], list_alpha(&l), d),
            Prog::new("list-three", cfg(BIG, BIG), i.clone(), list_alpha(&l), d),
            Prog::new("list-split", cfg(400, BIG), i.clone(), list_alpha(&l), d),
            Prog::new("list-compact", cfg(BIG, 60), i.clone(), list_alpha(&l), d),
        ]),
        300,
    );
    for (nm, cf) in options() {
        us.extend(seq::units(vec![Prog::new(&format!("list-opt-{nm}"), cf, i.clone(), list_alpha(&l), t.pick(2, 3))], 300));
    }
    us.extend(seq::units(long_lists(t), 16));
    us.extend(seq::units(list_values(t), 200));
    us
}
/// Values and expected values that are equal, prefixes of one another, or look like what is stored after them;
/// empty names, item keys and values.
fn list_values(t: Tier) -> Vec<Prog> {
    let mut ps = vec![];
    let idx = 0x8000_0000_0000_0000u64.to_le_bytes().to_vec();
    for (l, k) in [(b("L"), b("x")), (vec![], b("x")), (b("L"), vec![]), (vec![], vec![])] {
        for n in [0usize, 1, 8, 40] {
            let base = val(b'v', n);
            let mut vs: Vec<V> = vec![base.clone(), [base.clone(), idx.clone()].concat(), [base.clone(), vec![0]].concat(), vec![], idx.clone()];
            if n > 0 {
                vs.push(base[..n - 1].to_vec());
                let mut w = base.clone();
                w[n - 1] ^= 1;
                vs.push(w);
            }
            vs.sort();
            vs.dedup();
            let mut al = vec![LPopT(l.clone()), LRemove(l.clone(), k.clone()), LGoc(l.clone(), k.clone(), idx.clone()), LSet(l.clone(), b("other"), vec![])];
            for v in &vs {
                al.push(LSet(l.clone(), k.clone(), v.clone()));
                al.push(LReplace(l.clone(), k.clone(), base.clone(), Some(v.clone())));
            }
            al.push(LReplace(l.clone(), k.clone(), idx.clone(), None));
            ps.push(Prog::new(&format!("list-values-{}-{}-{n}", l.len(), k.len()), cfg(BIG, BIG), vec![], al, t.pick(2, 3)));
        }
    }
    ps
}
/// Lists and queues of some hundred items, with and without holes.
fn long_lists(t: Tier) -> Vec<Prog> {
    let l = b("L");
    let k = |i: usize| format!("i{i}").into_bytes();
    let mut ps = vec![];
    for (nm, n, step, cf) in [("full", 300usize, 0usize, cfg(BIG, BIG)), ("holes", 300, 3, cfg(BIG, BIG)), ("half", 260, 2, cfg(30_000, 8000)), ("ends", 257, 1, cfg(BIG, 4000))] {
        let mut init: Vec<Op> = (0..n).map(|i| LSet(l.clone(), k(i), val(b'a' + (i % 26) as u8, 1 + i % 17))).collect();
        match step {
            0 => (),
            // everything but a run in the middle
            1 => init.extend((0..n).filter(|i| !(100..130).contains(i)).map(|i| LRemove(l.clone(), k(i)))),
            s => init.extend((0..n).filter(|i| i % s == 1).map(|i| LRemove(l.clone(), k(i)))),
        }
        let al = vec![
            LCompact(l.clone(), 1),
            LPopH(l.clone()),
            LPopT(l.clone()),
            LSet(l.clone(), k(1), val(b'9', 5)),
            LSet(l.clone(), k(128), val(b'9', 5)),
            LProm(l.clone(), k(102), val(b'8', 5)),
            LRemove(l.clone(), k(n - 1)),
            LRemove(l.clone(), k(129)),
            LDiscard(l.clone()),
        ];
        ps.push(Prog::new(&format!("list-long-{nm}"), cf, init, al, t.pick(1, 2)).eager());
    }
    ps
}
fn long_queues(t: Tier) -> Vec<Prog> {
    let q = b("Q");
    let mut ps = vec![];
    for (nm, n, holes, cf) in [("full", 300usize, 0usize, cfg(BIG, BIG)), ("holes", 300, 3, cfg(BIG, BIG)), ("half", 260, 2, cfg(20_000, 5000)), ("ends", 257, 1, cfg(BIG, 3000))] {
        let mut init: Vec<Op> = vec![QExt(q.clone(), (0..n).map(|i| val(b'a' + (i % 26) as u8, 1 + i % 17)).collect())];
        match holes {
            0 => (),
            1 => {
                init.extend((0..100).map(|_| QPopH(q.clone())));
                init.extend((0..100).map(|_| QPopT(q.clone())));
                init.extend((0..100).map(|i| QPushH(q.clone(), val(b'A', i))));
            }
            s => init.extend((0..n).filter(|i| i % s == 1).map(|i| QRemove(q.clone(), Idx::Nth(i)))),
        }
        let al = vec![
            QPopH(q.clone()),
            QPopTI(q.clone()),
            QPushH(q.clone(), val(b'9', 5)),
            QExt(q.clone(), (0..40).map(|i| val(b'8', i)).collect()),
            QRemove(q.clone(), Idx::Nth(0)),
            QRemove(q.clone(), Idx::Nth(150)),
            QRemove(q.clone(), Idx::Nth(n - 1)),
            QDiscard(q.clone()),
        ];
        ps.push(Prog::new(&format!("queue-long-{nm}"), cf, init, al, t.pick(1, 2)).eager());
    }
    ps
}

// ------------------------------------------------------------------ C11
fn queue_alpha(q: &V) -> Vec<Op> {
    let q = q.clone();
    let v = |c| val(c, 12);
    vec![
        QPushH(q.clone(), v(b'1')),
        QPushT(q.clone(), v(b'2')),
        QPopH(q.clone()),
        QPopTI(q.clone()),
        QPopT(q.clone()),
        QExt(q.clone(), vec![v(b'4'), v(b'5')]),
        QExt(q.clone(), vec![]),
        QRemove(q.clone(), Idx::Nth(0)),
        QRemove(q.clone(), Idx::Nth(1)),
        QRemove(q.clone(), Idx::Nth(2)),
        QDiscard(q.clone()),
    ]
}
fn c11(t: Tier) -> Vec<Unit> {
    let q = b("Q");
    let d = t.pick(4, 6);
    let i = vec![QExt(q.clone(), vec![val(b'a', 12), val(b'b', 12), val(b'c', 12)])];
    let mut us = seq::units(
        both(vec![
            Prog::new("queue-empty", cfg(BIG, BIG), vec![], queue_alpha(&q), d),
            Prog::new("queue-three", cfg(BIG, BIG), i.clone(), queue_alpha(&q), d),
            Prog::new("queue-split", cfg(300, BIG), i.clone(), queue_alpha(&q), d),
            Prog::new("queue-compact", cfg(BIG, 60), i.clone(), queue_alpha(&q), d),
        ]),
        300,
    );
    for (nm, cf) in options() {
        us.extend(seq::units(vec![Prog::new(&format!("queue-opt-{nm}"), cf, i.clone(), queue_alpha(&q), t.pick(2, 3))], 300));
    }
    us.extend(seq::units(long_queues(t), 16));
    // empty values and names, values that look like internal data
    let idx = 0x8000_0000_0000_0000u64.to_le_bytes().to_vec();
    for q in [b("Q"), vec![], vec![7], idx.clone()] {
        let al = vec![
            QPushH(q.clone(), vec![]),
            QPushT(q.clone(), vec![]),
            QPushT(q.clone(), [idx.clone(), idx.clone(), vec![0; 8]].concat()),
            QExt(q.clone(), vec![vec![], idx.clone(), vec![]]),
            QPopH(q.clone()),
            QPopTI(q.clone()),
            QRemove(q.clone(), Idx::Nth(0)),
            QRemove(q.clone(), Idx::Nth(1)),
            QDiscard(q.clone()),
            QRemove(q.clone(), Idx::Abs(0x7fff_ffff_ffff_ffff)),
            QRemove(q.clone(), Idx::Abs(0)),
        ];
        us.extend(seq::units(vec![Prog::new(&format!("queue-values-{}", q.len()), cfg(BIG, BIG), vec![], al, t.pick(3, 4)).whole()], 200));
    }
    us
}


// ------------------------------------------------------------------ C06 / C07
fn c06(t: Tier) -> Vec<Unit> {
    // two keys in one row of one shard, one in the last row, one in the upper half
    let a = find_key("a", |s, r, _| s < 0x4000 && r == 0);
    let a2 = find_key("c", |s, r, _| s < 0x4000 && r == 0);
    let z = find_key("z", |s, r, _| s < 0x8000 && r == 63);
    let h = find_key("h", |s, r, _| s >= 0xc000 && r == 63);
    let v = |c| val(c, 20);
    let alpha = vec![
        Set(a.clone(), v(b'1')),
        Set(a2.clone(), v(b'2')),
        Set(z.clone(), v(b'3')),
        Set(h.clone(), v(b'4')),
        Remove(a.clone()),
        LSet(b("L"), b("x"), v(b'5')),
        QPushT(b("Q"), v(b'6')),
        TSet(7, "typed".into()),
        BSet(b("B"), v(b'7')),
        Merge(40_000),
    ];
    let mut ps = vec![];
    let mut wide = cfg(BIG, BIG);
    wide.expected_number_of_keys = 100_000;
    for (n, c) in [("one-shard", cfg(BIG, BIG)), ("splitting", cfg(90, BIG)), ("compacting", cfg(BIG, 30)), ("four-shards", wide)] {
        let mut p = Prog::new(&format!("iter-{n}"), c, vec![], alpha.clone(), t.pick(4, 5));
        p.post = Some(crate::iterx::exact_with_cookies);
        ps.push(p.eager());
    }
    let mut us = seq::units(ps, 100);
    let mut full = rows(t);
    for p in &mut full {
        p.post = Some(crate::iterx::exact_with_cookies);
        p.depth = t.pick(1, 2);
    }
    us.extend(seq::units(full, 3));
    us
}
fn c07(t: Tier) -> Vec<Unit> {
    let row = |p: &str, lo: u32, hi: u32, row: usize| find_key(p, move |s, r, _| s >= lo && s < hi && r == row);
    let (a, c, d) = (row("a", 0, 0x4000, 5), row("c", 0x8000, 0xc000, 5), row("d", 0, 0x4000, 5));
    let (e, f) = (row("e", 0xc000, 0x10000, 5), row("f", 0, 0x8000, 60));
    let g = row("g", 0x8000, 0x10000, 2);
    let v = |c| val(c, 20);
    let init: Vec<Op> = [&a, &c, &d, &e, &f, &g].iter().map(|k| Set((*k).clone(), v(b'0'))).collect();
    let t1 = row("t", 0, 0x8000, 5);
    let t2 = row("u", 0x8000, 0x10000, 40);
    let mut init2 = vec![Set(t1.clone(), v(b'9'))];
    init2.extend(init.clone());
    let alpha = vec![
        Set(t1.clone(), v(b'1')),
        Set(t1.clone(), v(b'2')),
        Set(t2.clone(), v(b'3')),
        Set(c.clone(), v(b'4')),
        Remove(a.clone()),
        Remove(t1.clone()),
        Quiesce,
    ];
    let mut alpha_m = alpha.clone();
    alpha_m.push(Merge(40_000));
    let mut us = vec![];
    for (n, cf) in [("compacting", cfg(BIG, 30)), ("splitting", cfg(190, BIG)), ("both", cfg(200, 50)), ("split", cfg(140, BIG)), ("split-deep", cfg(90, BIG)), ("split-compacting", cfg(120, 30))] {
        us.extend(crate::iterx::live_units(
            vec![crate::iterx::Live { name: format!("live-{n}"), cfg: cf, init: init2.clone(), alpha: alpha_m.clone(), depth: t.pick(3, 4), maxpos: 7, split: t.pick(2, 3) }],
            20,
        ));
    }
    // and truly at the same time, under every schedule
    let mut ps = vec![];
    let few: Vec<Op> = [&a, &c, &e].iter().map(|k| Set((*k).clone(), v(b'0'))).collect();
    let mut few2 = vec![Set(t1.clone(), v(b'8')), Set(t1.clone(), v(b'9'))];
    few2.extend(few.clone());
    let al = vec![Set(t1.clone(), v(b'1')), Set(t2.clone(), v(b'3')), Set(c.clone(), v(b'4')), Remove(a.clone()), Remove(t1.clone()), Replace(t1.clone(), v(b'5'), None), Merge(40_000)];
    for (n, cf, init, heavy) in [("plain", cfg(BIG, BIG), few2.clone(), false), ("splitting", cfg(120, BIG), few.clone(), true), ("compacting", cfg(BIG, 30), few2.clone(), true), ("merging", cfg(110, BIG), [few2.clone(), vec![Set(t2.clone(), v(b'7')), Remove(t2.clone())]].concat(), false)] {
        let sc = scene(n, cf, init, !heavy, heavy);
        for x in seqs(&al, 1) {
            ps.push(kp(t, "iter-while", &sc, vec![vec![Iter], x], t.pick(2, 3)));
        }
        for x in seqs(&al, 2) {
            ps.push(kp(t, "iter-while", &sc, vec![vec![Iter], x], t.pick(1, 2)));
        }
        if t == Tier::Thorough {
            for mut x in combos(&seqs(&al, 1), 2) {
                x.push(vec![Iter]);
                ps.push(kp(t, "iter-while", &sc, x, 2));
            }
        }
    }
    us.extend(conc::units(ps, 2));
    us
}


// ------------------------------------------------------------------ C03 / C04 / C10 / C13
fn cboth(v: Vec<CProg>) -> Vec<CProg> {
    let mut o = vec![];
    for p in v {
        o.push(p.clone());
        o.push(p.eager());
    }
    o
}
fn c03(t: Tier) -> Vec<Unit> {
    let a = find_key("a", |s, _, _| s < 0x4000);
    let c = find_key("b", |s, _, _| s >= 0x8000);
    let d = t.pick(3, 4);
    let mut ps = vec![];
    for (nm, cf) in [("plain", cfg(BIG, BIG)), ("split", cfg(100, BIG)), ("compact", cfg(BIG, 40)), ("both", cfg(160, 60))] {
        ps.push(CProg::new(&format!("crash-kv-{nm}"), cf.clone(), vec![Set(c.clone(), val(b'c', 20))], kv_alpha(&a, &c, 20), d));
    }
    let mut us = crash::units(cboth(ps), 10);
    // several operations in flight: every crash point of every schedule
    let al: Vec<Op> = kv_conc(&a, &c);
    let mut ks = vec![];
    for (n, cf, init, settle) in kv_scenes(&a, &c) {
        let sc = scene(n, cf, init, settle, n.starts_with("compact"));
        for th in combos(&seqs(&al, 1), 2) {
            ks.push(kcrash(t, "crash-kv", &sc, th));
        }
        if n == "merge" {
            for x in &al {
                ks.push(kcrash(t, "crash-kv", &sc, vec![vec![Merge(40_000)], vec![x.clone()]]));
            }
        }
    }
    us.extend(conc::units(ks, 1));
    us
}
fn kv_conc(a: &V, c: &V) -> Vec<Op> {
    let v = |x| val(x, 20);
    vec![Set(a.clone(), v(b'1')), Set(c.clone(), v(b'2')), Set(b("new"), v(b'3')), Remove(a.clone()), Replace(a.clone(), v(b'4'), Some(v(b'x'))), Goc(c.clone(), v(b'5')), Remove(c.clone())]
}
fn kcrash(t: Tier, pre: &str, s: &Scene, th: Vec<Vec<Op>>) -> KProg {
    let mut p = kp(t, pre, s, th, t.pick(1, 2));
    p.crash = true;
    p.visits = t.pick(if s.heavy { 2 } else { 4 }, 6);
    p
}
fn c10(t: Tier) -> Vec<Unit> {
    let l = b("L");
    let i = vec![LSet(l.clone(), b("x"), val(b'1', 12)), LSet(l.clone(), b("y"), val(b'2', 12)), LSet(l.clone(), b("z"), val(b'3', 12))];
    let mut al = list_alpha(&l);
    al.retain(|o| !matches!(o, LProm(..) | LCompact(..)));
    let mut ks = vec![];
    let m = b("M");
    let v = |x| val(x, 12);
    let hot = vec![LSet(l.clone(), b("x"), v(b'3')), LSet(l.clone(), b("n"), v(b'4')), LRemove(l.clone(), b("y")), LPopH(l.clone()), LPopT(l.clone()), LGoc(m.clone(), b("x"), v(b'5'))];
    for s in list_scenes(&l, &m) {
        for th in combos(&seqs(&hot, 1), 2) {
            ks.push(kcrash(t, "crash-list", &s, th));
        }
    }
    let mut us = crash::units(
        cboth(vec![
            CProg::new("crash-list-empty", cfg(BIG, BIG), vec![], al.clone(), t.pick(3, 4)),
            CProg::new("crash-list-three", cfg(BIG, BIG), i.clone(), al.clone(), t.pick(3, 4)),
            CProg::new("crash-list-split", cfg(400, BIG), i.clone(), al.clone(), t.pick(2, 3)),
            CProg::new("crash-list-compact", cfg(BIG, 60), i.clone(), al.clone(), t.pick(2, 3)),
        ]),
        5,
    );
    us.extend(conc::units(ks, 1));
    us
}
fn c13(t: Tier) -> Vec<Unit> {
    let q = b("Q");
    let i = vec![QExt(q.clone(), vec![val(b'a', 12), val(b'b', 12), val(b'c', 12)])];
    let al = queue_alpha(&q);
    let mut ks = vec![];
    let m = b("R");
    let v = |x| val(x, 12);
    let hot = vec![QPushH(q.clone(), v(b'1')), QPushT(q.clone(), v(b'2')), QPopHI(q.clone()), QPopTI(q.clone()), QRemove(q.clone(), Idx::Nth(1)), QPushT(m.clone(), v(b'8'))];
    for s in queue_scenes(&q, &m) {
        for th in combos(&seqs(&hot, 1), 2) {
            ks.push(kcrash(t, "crash-queue", &s, th));
        }
    }
    let mut us = crash::units(
        cboth(vec![
            CProg::new("crash-queue-empty", cfg(BIG, BIG), vec![], al.clone(), t.pick(3, 4)),
            CProg::new("crash-queue-three", cfg(BIG, BIG), i.clone(), al.clone(), t.pick(3, 4)),
            CProg::new("crash-queue-split", cfg(300, BIG), i.clone(), al.clone(), t.pick(2, 3)),
            CProg::new("crash-queue-compact", cfg(BIG, 60), i.clone(), al.clone(), t.pick(2, 3)),
        ]),
        5,
    );
    us.extend(conc::units(ks, 1));
    us
}

pub fn wide(n: usize, mut c: candystore::Config) -> candystore::Config {
    c.expected_number_of_keys = n;
    c
}
fn c04(t: Tier) -> Vec<Unit> {
    // keys in all four quarters, three of them in one row
    let row = |p: &str, q: u32, row: usize| find_key(p, move |s, r, _| s >> 14 == q && r == row);
    let (a, a2, c, d, e) = (row("a", 0, 3), row("i", 0, 3), row("c", 2, 3), row("d", 1, 63), row("e", 3, 0));
    let v = |x| val(x, 20);
    let s = |k: &V, x| Set(k.clone(), v(x));
    let mut ps = vec![];
    let deep = t == Tier::Thorough;
    let alpha = vec![s(&a, b'1'), s(&c, b'2'), Remove(a.clone()), Merge(40_000), Clear, Reopen];
    for (n, cf) in [("one", cfg(BIG, BIG)), ("two", wide(40_000, cfg(BIG, BIG))), ("four", wide(100_000, cfg(BIG, BIG)))] {
        // the very first open, from the first file on
        ps.push(CProg::new(&format!("crash-create-{n}"), cf.clone(), vec![s(&a, b'0')], alpha.clone(), t.pick(0, 1)).whole().nested(t.pick(1, 2)));
        ps.push(CProg::new(&format!("crash-clear-{n}"), cf.clone(), vec![s(&a, b'0'), s(&d, b'0'), s(&c, b'0'), s(&e, b'0')], vec![Clear, Reopen, s(&a, b'1')], t.pick(1, 2)).nested(1));
    }
    let mut up = wide(40_000, cfg(200, 60));
    up.truncate_up = true;
    ps.push(CProg::new("crash-create-truncate-up", up, vec![s(&a, b'0')], alpha.clone(), t.pick(0, 1)).whole().nested(1));
    // clearing a store of lists and queues that fits in one shard
    ps.push(CProg::new("crash-clear-all", cfg(BIG, BIG), vec![s(&a, b'0'), LSet(b("L"), b("x"), v(b'1')), QPushT(b("Q"), v(b'2'))], vec![Clear, s(&a, b'1')], t.pick(1, 2)).nested(1));
    // splits: one, cascading (all keys in one half), and of already split shards
    for (n, keys) in [("spread", vec![&a, &c, &d, &e]), ("same-row", vec![&a, &a2, &c])] {
        let init: Vec<Op> = keys.iter().map(|k| s(k, b'0')).collect();
        for (m, cf) in [("split", cfg(60, BIG)), ("split-compact", cfg(90, 40)), ("compact", cfg(BIG, 40))] {
            let al = vec![s(&a, b'1'), s(&a, b'2'), s(&c, b'3'), Remove(a.clone()), Merge(40_000), Clear, Reopen];
            ps.push(CProg::new(&format!("crash-{m}-{n}"), cf, init.clone(), al, t.pick(2, 3)).nested(if deep { 1 } else { 0 }));
        }
        let al = vec![s(&a, b'1'), s(&a, b'2'), s(&c, b'3')];
        for (m, cf) in [("split", cfg(60, BIG)), ("compact", cfg(BIG, 40))] {
            ps.push(CProg::new(&format!("crash-crash-{m}-{n}"), cf, init.clone(), al.clone(), t.pick(1, 2)).nested(1));
        }
        // merges
        let mut i2 = init.clone();
        i2.push(Remove(c.clone()));
        i2.push(Reopen);
        for (m, cf) in [("two", wide(40_000, cfg(BIG, BIG))), ("four", wide(100_000, cfg(BIG, BIG)))] {
            // the number of shards wanted is taken from the configuration the store is opened with
            let mut p = CProg::new(&format!("crash-merge-{m}-{n}"), cf, i2.clone(), vec![Merge(40_000), s(&a, b'1'), Reopen], t.pick(2, 3)).nested(1);
            p.reopen_cfg = Some(cfg(BIG, BIG));
            ps.push(p);
        }
        // merges of shards whose compaction has begun
        let mut i3 = init.clone();
        i3.extend([s(&a, b'w'), s(&c, b'w'), Reopen]);
        let al = vec![s(&a, b'1'), s(&c, b'2'), Merge(40_000), Remove(a.clone()), Clear];
        let mut p = CProg::new(&format!("crash-merge-compacting-{n}"), wide(40_000, cfg(BIG, BIG)), i3.clone(), al, t.pick(2, 3));
        p.reopen_cfg = Some(cfg(BIG, 20));
        ps.push(p);
        // and split again
        let al = vec![s(&a, b'1'), s(&c, b'2'), Merge(40_000), Set(e.clone(), val(b'3', 60))];
        let mut p = CProg::new(&format!("crash-merge-split-{n}"), wide(40_000, cfg(BIG, BIG)), i3, al, t.pick(3, 4));
        p.reopen_cfg = Some(cfg(120, 20));
        ps.push(p);
    }
    let mut all = cboth(ps);
    all.sort_by_key(|p| (p.depth, p.nested));
    let mut us = crash::units(all, 1);
    // structural changes of different threads at the same time
    let s2 = |k: &V| Set(k.clone(), v(b'x'));
    let big = |k: &V, x| Set(k.clone(), val(x, 22));
    let mut ks = vec![];
    for (n, cf, init, settle) in [
        ("splitting", cfg(60, BIG), vec![s2(&a), s2(&c)], true),
        ("two", cfg(60, BIG), vec![s2(&a), s2(&c), s2(&d), Remove(d.clone())], true),
        ("compacting", cfg(80, 20), vec![s2(&c), s2(&a), s(&a, b'y'), s(&c, b'y')], false),
    ] {
        let sc = scene(n, cf, init, settle, n == "compacting");
        let al = [s(&a, b'1'), big(&c, b'2'), s(&e, b'3'), Merge(40_000), Clear];
        for th in combos(&seqs(&al, 1), 2) {
            ks.push(kcrash(t, "crash-structure", &sc, th));
        }
    }
    // a shard about to be split begins to be compacted
    let sc = scene("split-compact", cfg(130, 20), vec![s2(&a), s2(&c), s2(&d)], true, true);
    for k in [&a, &c] {
        for th in [vec![s(k, b'1'), s(k, b'2')], vec![Remove(k.clone()), s(k, b'2')]] {
            ks.push(kcrash(t, "crash-structure", &sc, vec![vec![Set(e.clone(), val(b'3', 70))], th]));
        }
    }
    us.extend(conc::units(ks, 1));
    us
}

// ------------------------------------------------------------------ C02
/// (name, configuration, initial operations, settle)
fn kv_scenes(a: &V, c: &V) -> Vec<(&'static str, candystore::Config, Vec<Op>, bool)> {
    let v = |x| val(x, 20);
    let (a, c) = (a.clone(), c.clone());
    vec![
        ("plain", cfg(BIG, BIG), vec![Set(a.clone(), v(b'x'))], true),
        // the next new entry splits
        ("split", cfg(60, BIG), vec![Set(a.clone(), v(b'x')), Set(c.clone(), v(b'x'))], true),
        // the next write starts a compaction
        ("compact", cfg(BIG, 20), vec![Set(c.clone(), v(b'x')), Set(a.clone(), v(b'w')), Set(a.clone(), v(b'x'))], true),
        // a compaction is in progress
        ("compacting", cfg(BIG, 20), vec![Set(c.clone(), v(b'x')), Set(a.clone(), v(b'w')), Set(a.clone(), v(b'x')), Set(c.clone(), v(b'y'))], false),
        // two shards that can be merged
        ("merge", cfg(60, BIG), vec![Set(a.clone(), v(b'x')), Set(c.clone(), v(b'x')), Set(b("dd"), v(b'x')), Remove(b("dd"))], true),
    ]
}
fn c02(t: Tier) -> Vec<Unit> {
    let a = find_key("a", |s, r, _| s < 0x4000 && r == 1);
    let c = find_key("b", |s, r, _| s >= 0x8000 && r == 1);
    let v = |x| val(x, 20);
    let al = vec![
        Set(a.clone(), v(b'1')),
        Set(c.clone(), v(b'2')),
        Remove(a.clone()),
        Get(a.clone()),
        Replace(a.clone(), v(b'3'), Some(v(b'x'))),
        Replace(c.clone(), v(b'4'), None),
        Goc(a.clone(), v(b'5')),
        Goc(c.clone(), v(b'6')),
        Contains(c.clone()),
        Merge(40_000),
    ];
    let hot = vec![al[0].clone(), al[2].clone(), al[3].clone(), al[6].clone(), al[4].clone()];
    let mut ps = vec![];
    let q = t == Tier::Quick;
    for (n, cf, init, settle) in kv_scenes(&a, &c) {
        let bg = n.starts_with("compact");
        let mut add = |threads: Vec<Vec<Op>>, bound| {
            let mut p = KProg::new(&format!("kv-{n}"), cf.clone(), init.clone(), threads, bound);
            p.settle = settle;
            p.visits = t.pick(if bg { 4 } else { 6 }, 12);
            ps.push(p);
        };
        for th in combos(&seqs(&al, 1), 2) {
            add(th, t.pick(if bg { 1 } else { 2 }, 3));
        }
        if n == "merge" {
            for mut th in combos(&seqs(&hot, 1), 2) {
                th.push(vec![Merge(40_000)]);
                add(th, t.pick(1, 2));
            }
        } else if !(q && bg) {
            for th in combos(&seqs(if q { &hot } else { &al }, 1), 3) {
                add(th, t.pick(1, 2));
            }
        }
        if !q || n == "plain" {
            for th in combos(&seqs(&hot, 2), 2) {
                add(th, t.pick(1, 2));
            }
        }
    }
    ps.sort_by_key(|p| p.bound);
    conc::units(ps, 2)
}

// ------------------------------------------------------------------ C09 / C12
pub struct Scene {
    pub name: &'static str,
    pub cfg: candystore::Config,
    pub init: Vec<Op>,
    pub settle: bool,
    /// many background steps: explored less deeply in the quick tier
    pub heavy: bool,
}
pub fn scene(name: &'static str, cfg: candystore::Config, init: Vec<Op>, settle: bool, heavy: bool) -> Scene {
    Scene { name, cfg, init, settle, heavy }
}
pub fn kp(t: Tier, pre: &str, s: &Scene, threads: Vec<Vec<Op>>, bound: u32) -> KProg {
    let mut p = KProg::new(&format!("{pre}-{}", s.name), s.cfg.clone(), s.init.clone(), threads, bound);
    p.settle = s.settle;
    p.visits = t.pick(if s.heavy { 4 } else { 6 }, 12);
    p
}
fn list_scenes(l: &V, m: &V) -> Vec<Scene> {
    let v = |x| val(x, 12);
    let i = |x: &str, c| LSet(l.clone(), b(x), v(c));
    vec![
        scene("one", cfg(BIG, BIG), vec![i("x", b'1')], true, false),
        scene("two", cfg(BIG, BIG), vec![i("x", b'1'), i("y", b'2'), LSet(m.clone(), b("x"), v(b'9'))], true, false),
        scene("hole", cfg(BIG, BIG), vec![i("x", b'1'), i("y", b'2'), i("z", b'3'), LRemove(l.clone(), b("y"))], true, false),
        scene("split", cfg(180, BIG), vec![i("x", b'1')], true, true),
        scene("compact", cfg(BIG, 20), vec![i("x", b'1'), i("x", b'2')], true, true),
    ]
}
fn c09(t: Tier) -> Vec<Unit> {
    let (l, m) = (b("L"), b("M"));
    let v = |x| val(x, 12);
    let al = vec![
        LSet(l.clone(), b("x"), v(b'3')),
        LSet(l.clone(), b("n"), v(b'4')),
        LRemove(l.clone(), b("x")),
        LPopH(l.clone()),
        LPopT(l.clone()),
        LPeekH(l.clone()),
        LPeekT(l.clone()),
        LGet(l.clone(), b("x")),
        LGoc(l.clone(), b("n"), v(b'5')),
        LReplace(l.clone(), b("x"), v(b'6'), Some(v(b'1'))),
        LProm(l.clone(), b("x"), v(b'7')),
        LDiscard(l.clone()),
        LCompact(l.clone(), 0),
        LSet(m.clone(), b("x"), v(b'8')),
    ];
    // two-operation threads and three threads
    let w: Vec<Op> = [1usize, 3, 4, 2].iter().map(|i| al[*i].clone()).collect();
    let r: Vec<Op> = [5usize, 6, 3, 4, 7, 0].iter().map(|i| al[*i].clone()).collect();
    let hot: Vec<Op> = [1usize, 3, 4, 5, 2].iter().map(|i| al[*i].clone()).collect();
    let mut ps = vec![];
    let q = t == Tier::Quick;
    for s in list_scenes(&l, &m) {
        for th in combos(&seqs(if s.heavy && q { &hot } else { &al }, 1), 2) {
            ps.push(kp(t, "list", &s, th, t.pick(if s.heavy { 1 } else { 2 }, 3)));
        }
        if !s.heavy {
            for th in two_one(&w, &r) {
                ps.push(kp(t, "list", &s, th, t.pick(1, 2)));
            }
        }
        if !(s.heavy && q) {
            for th in combos(&seqs(&hot, 1), 3) {
                ps.push(kp(t, "list", &s, th, t.pick(1, 2)));
            }
        }
    }
    // shards being merged meanwhile
    let sc = scene("merging", cfg(210, BIG), vec![LSet(l.clone(), b("x"), v(b'1')), LSet(l.clone(), b("y"), v(b'2')), Set(b("pad1"), val(b'p', 40)), Set(b("pad2"), val(b'p', 40)), Remove(b("pad1")), Remove(b("pad2"))], true, false);
    for x in &al {
        ps.push(kp(t, "list", &sc, vec![vec![Merge(40_000)], vec![x.clone()]], t.pick(2, 3)));
    }
    for th in combos(&seqs(&hot, 1), 2) {
        let mut p = kp(t, "list", &sc, vec![vec![Merge(40_000)], th[0].clone(), th[1].clone()], 1);
        p.visits = t.pick(2, 6);
        ps.push(p);
    }
    ps.sort_by_key(|p| p.bound);
    conc::units(ps, 2)
}
fn queue_scenes(q: &V, m: &V) -> Vec<Scene> {
    let v = |x| val(x, 12);
    let i = |c| QPushT(q.clone(), v(c));
    vec![
        scene("one", cfg(BIG, BIG), vec![i(b'a')], true, false),
        scene("three", cfg(BIG, BIG), vec![i(b'a'), i(b'b'), i(b'c'), QPushT(m.clone(), v(b'z'))], true, false),
        scene("hole", cfg(BIG, BIG), vec![i(b'a'), i(b'b'), i(b'c'), QRemove(q.clone(), Idx::Nth(1))], true, false),
        scene("split", cfg(110, BIG), vec![i(b'a')], true, true),
        scene("compact", cfg(BIG, 20), vec![i(b'a'), i(b'b')], true, true),
    ]
}
fn c12(t: Tier) -> Vec<Unit> {
    let (q, m) = (b("Q"), b("R"));
    let v = |x| val(x, 12);
    let al = vec![
        QPushH(q.clone(), v(b'1')),
        QPushT(q.clone(), v(b'2')),
        QPopHI(q.clone()),
        QPopTI(q.clone()),
        QPeekHI(q.clone()),
        QPeekTI(q.clone()),
        QExt(q.clone(), vec![v(b'4'), v(b'5')]),
        QRemove(q.clone(), Idx::Nth(0)),
        QRemove(q.clone(), Idx::Nth(1)),
        QLen(q.clone()),
        QRange(q.clone()),
        QDiscard(q.clone()),
        QPushT(m.clone(), v(b'8')),
    ];
    let w: Vec<Op> = [0usize, 1, 2, 3].iter().map(|i| al[*i].clone()).collect();
    let r: Vec<Op> = [4usize, 5, 2, 3, 7, 9].iter().map(|i| al[*i].clone()).collect();
    let hot: Vec<Op> = [0usize, 1, 2, 3, 4].iter().map(|i| al[*i].clone()).collect();
    let mut ps = vec![];
    let qk = t == Tier::Quick;
    for s in queue_scenes(&q, &m) {
        for th in combos(&seqs(if s.heavy && qk { &hot } else { &al }, 1), 2) {
            ps.push(kp(t, "queue", &s, th, t.pick(if s.heavy { 1 } else { 2 }, 3)));
        }
        if !s.heavy {
            for th in two_one(&w, &r) {
                ps.push(kp(t, "queue", &s, th, t.pick(1, 2)));
            }
        }
        if !(s.heavy && qk) {
            for th in combos(&seqs(&hot, 1), 3) {
                ps.push(kp(t, "queue", &s, th, t.pick(1, 2)));
            }
        }
    }
    // shards being merged meanwhile
    let sc = scene("merging", cfg(180, BIG), vec![QPushT(q.clone(), v(b'a')), QPushT(q.clone(), v(b'b')), Set(b("pad1"), val(b'p', 40)), Set(b("pad2"), val(b'p', 40)), Remove(b("pad1")), Remove(b("pad2"))], true, false);
    for x in &al {
        ps.push(kp(t, "queue", &sc, vec![vec![Merge(40_000)], vec![x.clone()]], t.pick(2, 3)));
    }
    for th in combos(&seqs(&hot, 1), 2) {
        let mut p = kp(t, "queue", &sc, vec![vec![Merge(40_000)], th[0].clone(), th[1].clone()], 1);
        p.visits = t.pick(2, 6);
        ps.push(p);
    }
    ps.sort_by_key(|p| p.bound);
    conc::units(ps, 2)
}

// ------------------------------------------------------------------ C30
fn c30(t: Tier) -> Vec<Unit> {
    use crate::iterx::LiveSeq;
    let (l, m, q, r) = (b("L"), b("M"), b("Q"), b("R"));
    let v = |x| val(x, 12);
    let li = |x: &str, c| LSet(l.clone(), b(x), v(c));
    let qi = |c| QPushT(q.clone(), v(c));
    let top = find_key("t", |s, _, _| s >= 0x8000);
    let linit = vec![li("a", b'1'), li("b", b'2'), li("c", b'3'), li("d", b'4'), li("e", b'5'), LRemove(l.clone(), b("c")), LSet(m.clone(), b("b"), v(b'9'))];
    let lal = vec![
        li("b", b'6'),
        li("n", b'7'),
        LRemove(l.clone(), b("a")),
        LRemove(l.clone(), b("d")),
        LPopH(l.clone()),
        LPopT(l.clone()),
        LProm(l.clone(), b("b"), v(b'8')),
        LReplace(l.clone(), b("d"), v(b'A'), None),
        LGoc(l.clone(), b("c"), v(b'B')),
        LDiscard(l.clone()),
        LCompact(l.clone(), 0),
        LIter(l.clone()),
        LDiscard(m.clone()),
        Set(top.clone(), v(b'C')),
        Merge(40_000),
    ];
    let qinit = vec![qi(b'1'), qi(b'2'), qi(b'3'), qi(b'4'), qi(b'5'), QRemove(q.clone(), Idx::Nth(2)), QPushT(r.clone(), v(b'9'))];
    let qal = vec![
        QPushH(q.clone(), v(b'6')),
        QPushT(q.clone(), v(b'7')),
        QPopHI(q.clone()),
        QPopT(q.clone()),
        QRemove(q.clone(), Idx::Nth(0)),
        QRemove(q.clone(), Idx::Nth(1)),
        QRemove(q.clone(), Idx::Nth(3)),
        QExt(q.clone(), vec![v(b'A'), v(b'B')]),
        QDiscard(q.clone()),
        QIterB(q.clone()),
        QDiscard(r.clone()),
        Set(top.clone(), v(b'C')),
        Merge(40_000),
    ];
    let mut ps = vec![];
    for (on, init, al, max, comp) in [(drv::Seq::L(l.clone()), &linit, &lal, 420, 60), (drv::Seq::Q(q.clone()), &qinit, &qal, 220, 60)] {
        let n = if matches!(on, drv::Seq::L(_)) { "list" } else { "queue" };
        for (nm, cf, eager) in [("plain", cfg(BIG, BIG), false), ("splitting", cfg(max, BIG), false), ("compacting", cfg(BIG, comp), false), ("both", cfg(max, comp), true)] {
            ps.push(LiveSeq {
                name: format!("while-iterating-{n}-{nm}"),
                cfg: cf,
                init: init.clone(),
                on: on.clone(),
                alpha: al.clone(),
                depth: if nm == "plain" { t.pick(3, 4) } else { 3 },
                maxpos: 5,
                split: t.pick(2, 3),
                eager,
            });
        }
    }
    let mut us = crate::iterx::seq_units(ps, 60);
    // and truly at the same time, under every schedule
    let mut ps = vec![];
    let lm: Vec<Op> = [0usize, 1, 2, 4, 5, 6, 7, 9].iter().map(|i| lal[*i].clone()).collect();
    let qm: Vec<Op> = qal[..9].to_vec();
    for (n, its, al, init, more, max, comp) in [("list", [LIter(l.clone()), LIterB(l.clone())], lm, &linit[..4], li("a", b'D'), 300, 30), ("queue", [QIter(q.clone()), QIterB(q.clone())], qm, &qinit[..4], qi(b'D'), 150, 30)] {
        let scenes = [
            scene("plain", cfg(BIG, BIG), init.to_vec(), true, false),
            scene("split", cfg(max, BIG), init.to_vec(), true, true),
            scene("compact", cfg(BIG, comp), [init, &[more]].concat(), false, true),
        ];
        for s in scenes {
            for it in &its {
                for x in seqs(&al, 1) {
                    ps.push(kp(t, n, &s, vec![vec![it.clone()], x], t.pick(if s.heavy { 1 } else { 2 }, 3)));
                }
                if !s.heavy || t == Tier::Thorough {
                    for x in seqs(&al, 2) {
                        ps.push(kp(t, n, &s, vec![vec![it.clone()], x], t.pick(1, 2)));
                    }
                }
            }
        }
    }
    ps.sort_by_key(|p| p.bound);
    us.extend(conc::units(ps, 2));
    us
}
pub fn all() -> Vec<Spec> {
    use crate::inputs::*;
    use crate::more::*;
    use crate::shapes::*;
    vec![
        Spec { id: "C18", units: crate::durable::c18, budget: (150, 3000) },
        Spec { id: "C19", units: crate::durable::c19, budget: (150, 3000) },
        Spec { id: "C28", units: crate::space::c28, budget: (150, 3000) },
        Spec { id: "C24", units: crate::gate::c24, budget: (150, 3000) },
        Spec { id: "C22", units: crate::locks::c22, budget: (150, 3000) },
        Spec { id: "C23", units: crate::faults::c23, budget: (240, 3000) },
        Spec { id: "C14", units: c14, budget: (100, 3000) },
        Spec { id: "C15", units: c15, budget: (100, 3000) },
        Spec { id: "C16", units: c16, budget: (100, 3000) },
        Spec { id: "C21", units: c21, budget: (100, 3000) },
        Spec { id: "C29", units: c29, budget: (100, 3000) },
        Spec { id: "C04", units: c04, budget: (100, 3000) },
        Spec { id: "C05", units: c05, budget: (100, 3000) },
        Spec { id: "C26", units: c26, budget: (100, 3000) },
        Spec { id: "C17", units: c17, budget: (100, 3000) },
        Spec { id: "C20", units: c20, budget: (100, 3000) },
        Spec { id: "C25", units: c25, budget: (100, 3000) },
        Spec { id: "C27", units: c27, budget: (100, 3000) },
        Spec { id: "C01", units: c01, budget: (60, 3000) },
        Spec { id: "C02", units: c02, budget: (100, 3000) },
        Spec { id: "C09", units: c09, budget: (100, 3000) },
        Spec { id: "C12", units: c12, budget: (100, 3000) },
        Spec { id: "C03", units: c03, budget: (100, 3000) },
        Spec { id: "C10", units: c10, budget: (100, 3000) },
        Spec { id: "C13", units: c13, budget: (100, 3000) },
        Spec { id: "C06", units: c06, budget: (100, 3000) },
        Spec { id: "C07", units: c07, budget: (100, 3000) },
        Spec { id: "C32", units: crate::leak::c32, budget: (200, 3000) },
        Spec { id: "C31", units: c31, budget: (100, 3000) },
        Spec { id: "C30", units: c30, budget: (100, 3000) },
        Spec { id: "C08", units: c08, budget: (60, 3000) },
        Spec { id: "C11", units: c11, budget: (60, 3000) },
    ]
}
