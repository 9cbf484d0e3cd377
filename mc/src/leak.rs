//! What the store holds on to: open files, mappings, threads and memory.
use crate::conc::{self, combos, seqs, KProg};
use crate::crash::{self, CProg};
use crate::fw::*;
use crate::seq::{self, Prog};
use crate::util::*;
use drv::{Idx, Op::*};
use mcrt::rt::{fid_of_path, held, rt};

static mut STRICT: bool = false;
static mut LEAK: Option<String> = None;
static mut PEAK: [u64; 3] = [0; 3];

fn note(e: String) {
    unsafe {
        if LEAK.is_none() {
            LEAK = Some(e);
        }
    }
}
/// after the store was dropped (or could not be opened): nothing is left
pub fn closed(when: &str) {
    if unsafe { !STRICT } {
        return;
    }
    mcrt::rt::quiesce();
    let h = held();
    if !h.fds.is_empty() || !h.maps.is_empty() || h.threads > 0 || !rt().dirfds.is_empty() {
        note(format!(
            "after {when} {} files, {} directories and {} mappings were still open and {} threads still running",
            h.fds.len(),
            rt().dirfds.len(),
            h.maps.len(),
            h.threads
        ));
    }
    if std::env::var("LEAKDBG").is_ok() {
        eprintln!("mem {when}: {}", h.mem);
    }
}
/// with the store open and nothing going on: each shard file is open and mapped once
pub fn at_rest() {
    if unsafe { !STRICT } {
        return;
    }
    let dir = rt().cfg.dir.clone();
    let mut names = vec![];
    for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if let Some(f) = fid_of_path(&format!("{dir}/{n}")) {
            names.push(f);
        }
    }
    let h = held();
    let gone = |v: &[u32]| v.iter().filter(|f| !names.contains(f)).count();
    let (a, b) = (gone(&h.fds), gone(&h.maps));
    if a + b > 0 {
        note(format!("with no operation in progress {a} files that are no longer in the directory were open and {b} mapped"));
    }
    if h.fds.len() > names.len() || h.maps.len() > names.len() || !rt().dirfds.is_empty() {
        note(format!("with no operation in progress and {} files in the directory {} files, {} directories and {} mappings were open", names.len(), h.fds.len(), rt().dirfds.len(), h.maps.len()));
    }
    unsafe {
        PEAK = [PEAK[0].max(h.fds.len() as u64), PEAK[1].max(h.maps.len() as u64), PEAK[2].max(h.mem.max(0) as u64)];
    }
    if std::env::var("LEAKDBG").is_ok() {
        eprintln!("rest: files {} fds {:?} maps {:?} thr {} mem {}", names.len(), h.fds, h.maps, h.threads, h.mem);
    }
}

/// The same units, with what is held being judged.
pub fn strict(us: Vec<Unit>) -> Vec<Unit> {
    us.into_iter()
        .map(|u| {
            let run = u.run;
            let label = u.label.clone();
            unit(u.label, move |w| {
                unsafe {
                    STRICT = true;
                    LEAK = None;
                }
                let r = run(w);
                #[allow(static_mut_refs)]
                let leak = unsafe {
                    STRICT = false;
                    LEAK.take()
                };
                if let Some(e) = leak {
                    let what = format!("{label}: {}", w.leak_at.take().unwrap_or_default());
                    w.check(viol(format!("held:{:016x}", hash_s(&what)), format!("{what} => {e}")))?;
                }
                // what else goes wrong there is judged by other checks
                let _ = r;
                Ok(())
            })
        })
        .collect()
}
#[allow(static_mut_refs)]
pub fn pending() -> bool {
    unsafe { LEAK.is_some() }
}

/// A cycle of operations over and over: memory may not grow on and on.
fn grows(w: &mut Wk, cf: &candystore::Config, pre: &[drv::Op], cycle: &(dyn Fn(usize) -> Vec<drv::Op> + Sync), settle: bool) -> Result<(), String> {
    const N: usize = 40;
    let dir = w.dir(0);
    let d2 = dir.clone();
    let (r, _) = w.session(mcrt::rt::Cfg { dir, max_steps: 400_000_000, ..Default::default() }, || -> Result<(), String> {
        let mut db = open(&d2, cf)?;
        for op in pre {
            ex(&db, op, &[]);
        }
        let mut max = [0i64; 3];
        // shards take memory
        let mut files = [0usize; 3];
        for n in 0..3 * N {
            for op in &cycle(n) {
                if *op == Reopen {
                    close(db);
                    db = open(&d2, cf)?;
                } else {
                    ex(&db, op, &[]);
                }
            }
            if settle || n % 8 == 7 {
                quiesce();
                max[n / N] = max[n / N].max(held().mem);
                files[n / N] = files[n / N].max(std::fs::read_dir(&d2).map_or(0, |d| d.count()));
            }
        }
        close(db);
        // memory is reused, pools fill up: it may vary, but not become more and more
        if max[1] > max[0] && max[2] > max[1] && files[0] == files[1] && files[1] == files[2] {
            note(format!("with no operation in progress at most {} bytes of memory were in use during the first {N} repetitions, {} during the next and {} during those after them", max[0], max[1], max[2]));
        }
        Ok(())
    });
    r
}
fn growth(t: Tier, confs: &[(&'static str, candystore::Config)], pre: &[drv::Op], als: &[(&'static str, Vec<drv::Op>)]) -> Vec<Unit> {
    let mut us = vec![];
    for (n, cf) in confs {
        for (what, al) in als {
            let mut cycles: Vec<Vec<drv::Op>> = al.iter().map(|x| vec![x.clone()]).collect();
            cycles.extend(al.iter().flat_map(|x| al.iter().map(|y| vec![x.clone(), y.clone()])));
            if t == Tier::Thorough {
                cycles.extend(al.iter().flat_map(|x| al.iter().flat_map(|y| al.iter().map(|z| vec![x.clone(), y.clone(), z.clone()]))));
            }
            let total = cycles.len();
            for (i, c) in cycles.chunks(40).enumerate() {
                let (cf, pre, c) = (cf.clone(), pre.to_vec(), c.to_vec());
                us.push(unit(format!("growth-{what}-{n} cycles {}.. of {total}", i * 40), move |w| {
                    for cy in &c {
                        // the list and the queue are emptied now and then
                        let mut cy = cy.clone();
                        cy.extend([LDiscard(b("L")), QDiscard(b("Q"))]);
                        for settle in [true, false] {
                            if w.out_of_time() {
                                break;
                            }
                            w.what = format!("[{}{}] {} then over and over {}", pcfg(&cf), if settle { ",eager" } else { "" }, pops(&pre), pops(&cy));
                            let what = w.what.clone();
                            w.sample(|| what.clone());
                            w.state(hash_s(&what));
                            w.add("cycles", 1);
                            let _ = grows(w, &cf, &pre, &|_| cy.clone(), settle);
                        }
                    }
                    Ok(())
                }));
            }
        }
    }
    us
}

/// names that are different each time, everything being removed again
fn fresh(n: usize) -> Vec<drv::Op> {
    let k = |s: &str| b(&format!("{s}{n}"));
    let v = |x| val(x, 20);
    let (l, q) = (k("L"), k("Q"));
    vec![
        Set(k("k"), v(b'1')),
        Goc(k("k"), v(b'2')),
        Get(k("g")),
        LSet(l.clone(), k("x"), v(b'1')),
        LSet(l.clone(), k("y"), v(b'1')),
        LPopT(l.clone()),
        LGet(l.clone(), k("z")),
        LIter(l.clone()),
        LLen(l.clone()),
        QPushT(q.clone(), v(b'3')),
        QPopH(q.clone()),
        QIterB(q.clone()),
        QLen(q.clone()),
        BSet(k("B"), v(b'6')),
        BGet(k("B")),
    ]
}
fn growth_fresh(t: Tier, confs: &[(&'static str, candystore::Config)]) -> Vec<Unit> {
    let mut us = vec![];
    let m = fresh(0).len();
    for (n, cf) in confs {
        let mut cycles: Vec<Vec<usize>> = (0..m).map(|x| vec![x]).collect();
        if t == Tier::Thorough {
            cycles.extend((0..m).flat_map(|x| (0..m).map(move |y| vec![x, y])));
        }
        let total = cycles.len();
        for (i, c) in cycles.chunks(5).enumerate() {
            let (cf, c) = (cf.clone(), c.to_vec());
            us.push(unit(format!("growth-names-{n} cycles {}.. of {total}", i * 5), move |w| {
                for cy in &c {
                    for (settle, clear) in [(true, false), (false, false), (true, true)] {
                        if w.out_of_time() {
                            break;
                        }
                        let ops = |n: usize| {
                            let f = fresh(n);
                            let k = |s: &str| b(&format!("{s}{n}"));
                            let mut o: Vec<drv::Op> = cy.iter().map(|i| f[*i].clone()).collect();
                            if clear {
                                o.push(Clear);
                            } else {
                                o.extend([Remove(k("k")), LDiscard(k("L")), QDiscard(k("Q")), BRemove(k("B"))]);
                            }
                            o
                        };
                        w.what = format!("[{}{}] over and over, with other names each time: {}", pcfg(&cf), if settle { ",eager" } else { "" }, pops(&ops(1)));
                        let what = w.what.clone();
                        w.sample(|| what.clone());
                        w.state(hash_s(&what));
                        w.add("cycles", 1);
                        let _ = grows(w, &cf, &[], &ops, settle);
                    }
                }
                Ok(())
            }));
        }
    }
    us
}

pub fn c32(t: Tier) -> Vec<Unit> {
    let a = find_key("a", |s, r, _| s < 0x4000 && r == 1);
    let c = find_key("b", |s, r, _| s >= 0x8000 && r == 1);
    let v = |x| val(x, 20);
    let (l, q) = (b("L"), b("Q"));
    let kv = vec![Set(a.clone(), v(b'1')), Set(c.clone(), v(b'2')), Set(b("new"), v(b'3')), Remove(a.clone()), Goc(a.clone(), v(b'4')), Replace(c.clone(), v(b'5'), None), Merge(40_000), Clear, Iter, Flush, Reopen];
    let ns = vec![
        LSet(l.clone(), b("x"), v(b'1')),
        LProm(l.clone(), b("x"), v(b'2')),
        LPopH(l.clone()),
        LIter(l.clone()),
        LCompact(l.clone(), 0),
        LDiscard(l.clone()),
        QPushT(q.clone(), v(b'3')),
        QExt(q.clone(), vec![v(b'4'), v(b'5')]),
        QRemove(q.clone(), Idx::Nth(0)),
        QPopH(q.clone()),
        QIterB(q.clone()),
        BSet(b("B"), v(b'6')),
        BRemove(b("B")),
        Reopen,
    ];
    let full = vec![Set(a.clone(), v(b'x')), Set(c.clone(), v(b'x')), Set(a.clone(), v(b'y'))];
    let confs = [("plain", cfg(BIG, BIG)), ("split", cfg(60, BIG)), ("compact", cfg(BIG, 20)), ("both", cfg(100, 20))];
    let mut ps = vec![];
    for (n, cf) in &confs {
        for (what, al) in [("kv", &kv), ("ns", &ns)] {
            let p = Prog::new(&format!("held-{what}-{n}"), cf.clone(), full.clone(), al.clone(), t.pick(3, 4));
            ps.push(p.clone());
            ps.push(p.eager());
        }
    }
    let mut us = seq::units(ps, 200);
    let mut ks = vec![];
    for (n, cf) in &confs {
        for settle in [true, false] {
            for th in combos(&seqs(&kv[..t.pick(8, 10)], 1), 2) {
                let mut p = KProg::new(&format!("held-{n}"), cf.clone(), full.clone(), th, t.pick(1, 2));
                p.settle = settle;
                p.visits = t.pick(2, 6);
                p.post = Some(|_, _, _| {
                    quiesce();
                    Ok(())
                });
                ks.push(p);
            }
        }
    }
    us.extend(conc::units(ks, 2));
    let mut cs = vec![];
    for (n, cf) in &confs {
        cs.push(CProg::new(&format!("held-crash-{n}"), cf.clone(), full.clone(), kv.clone(), t.pick(2, 3)).eager());
    }
    us.extend(crash::units(cs, 10));
    us.extend(crate::faults::c23(Tier::Quick).into_iter().filter(|u| u.label.starts_with(if t == Tier::Quick { "open-" } else { "" })));
    us.extend(growth(t, &confs, &full, &[("kv", kv.clone()), ("ns", ns.clone())]));
    us.extend(growth_fresh(t, &confs));
    us.extend(crate::gate::c24(Tier::Quick));
    strict(us)
}
