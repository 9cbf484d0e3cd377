//! Exhaustive enumeration of operation sequences on the real store, compared step by step with the
//! reference model.
use crate::fw::*;
use crate::model::{short, pushed, Uni, M};
use crate::util::*;
use candystore::Config;
use drv::Op;
use std::sync::Arc;

#[derive(Clone)]
pub struct Prog {
    pub name: String,
    pub cfg: Config,
    pub init: Vec<Op>,
    pub alpha: Vec<Op>,
    pub depth: usize,
    /// let background work finish after every operation (otherwise it only runs when the client blocks)
    pub eager: bool,
    pub whole: bool,
    pub reopen: bool,
    pub exact: bool,
    /// extra check on the open store after the sequence
    pub post: Option<fn(&drv::Db, &M, &Config) -> Result<(), String>>,
}
impl Prog {
    pub fn new(name: &str, cfg: Config, init: Vec<Op>, alpha: Vec<Op>, depth: usize) -> Prog {
        Prog { name: name.into(), cfg, init, alpha, depth, eager: false, whole: false, reopen: true, exact: true, post: None }
    }
    pub fn eager(mut self) -> Self {
        self.eager = true;
        self.name += "/eager";
        self
    }
    pub fn whole(mut self) -> Self {
        self.whole = true;
        self
    }
    pub fn total(&self) -> u64 {
        (0..=self.depth).map(|d| (self.alpha.len() as u64).pow(d as u32)).sum()
    }
    pub fn nth(&self, mut n: u64) -> Vec<Op> {
        let a = self.alpha.len() as u64;
        let mut len = 0;
        let mut c = 1;
        while n >= c {
            n -= c;
            c *= a;
            len += 1;
        }
        let mut v = vec![];
        for _ in 0..len {
            v.push(self.alpha[(n % a) as usize].clone());
            n /= a;
        }
        v.reverse();
        v
    }
}

/// Run `ops` on a fresh store in `dir`. Returns the description of the first deviation.
pub fn run_ops(dir: &str, cfg: &Config, ops: &[Op], eager: bool, whole: bool, reopen: bool, exact: bool, post: Option<fn(&drv::Db, &M, &Config) -> Result<(), String>>) -> Result<u64, String> {
    let uni = Uni::of(ops);
    let mut m = M::default();
    let mut idxs = vec![];
    let mut db = open(dir, cfg)?;
    let mut trail = 0;
    for (i, op) in ops.iter().enumerate() {
        if *op == Op::Reopen {
            close(db);
            db = open(dir, cfg).map_err(|e| format!("at op {i} (reopen): {e}"))?;
            continue;
        }
        if *op == Op::Quiesce {
            quiesce();
            continue;
        }
        let late = i + 12 > ops.len();
        let before = if late { m.clone() } else { M::default() };
        let r = ex(&db, op, &idxs);
        pushed(op, &r, &mut idxs);
        if !m.accept(op, &r, &idxs) {
            let before = if late { short(&before) } else { "left by the operations before it".into() };
            let e = format!("op {i} {} returned {} in state {before}", pop(op), pres(&r));
            close(db);
            return Err(e);
        }
        if eager {
            quiesce();
        }
        if late {
            trail = mcrt::mix(trail, hash_m(&m));
        }
    }
    let chk = |db: &drv::Db, m: &M, when: &str| -> Result<(), String> {
        let o = obs(db, &uni, exact, whole).map_err(|e| format!("{when}: {e}"))?;
        if o.m != *m {
            return Err(format!("{when}: store contains {} expected {}", short(&o.m), short(m)));
        }
        Ok(())
    };
    let mut r = chk(&db, &m, "after the sequence");
    if let (Ok(()), Some(p)) = (&r, post) {
        r = p(&db, &m, cfg);
    }
    close(db);
    r?;
    if reopen {
        let db = open(dir, cfg).map_err(|e| format!("reopen after the sequence: {e}"))?;
        let r = chk(&db, &m, "after reopening");
        close(db);
        r?;
    }
    Ok(mcrt::mix(trail, hash_m(&m)))
}

pub fn units(progs: Vec<Prog>, chunk: u64) -> Vec<Unit> {
    let mut us = vec![];
    for p in progs {
        let p = Arc::new(p);
        let total = p.total();
        let mut s = 0;
        while s < total {
            let e = (s + chunk).min(total);
            let p = p.clone();
            us.push(unit(format!("{} sequences {s}..{e} of {total}", p.name), move |w| {
                for n in s..e {
                    if w.out_of_time() {
                        break;
                    }
                    let mut ops = p.init.clone();
                    ops.extend(p.nth(n));
                    let dir = w.dir(0);
                    let d2 = dir.clone();
                    w.what = format!("{} [{}]: {}", p.name, pcfg(&p.cfg), pops(&ops));
                    let (r, out) = w.session(mcrt::rt::Cfg { dir, ..Default::default() }, || {
                        run_ops(&d2, &p.cfg, &ops, p.eager, p.whole, p.reopen, p.exact, p.post)
                    });
                    let r = match r {
                        Ok(h) => {
                            if !out.panics.is_empty() {
                                Err(format!("panic in a background thread: {:?}", out.panics))
                            } else {
                                w.state(h);
                                Ok(())
                            }
                        }
                        Err(e) => Err(e),
                    };
                    if n + 1 == total {
                        w.sample(|| pops(&ops));
                    }
                    if let Err(e) = r {
                        let what = format!("[{}] {}", pcfg(&p.cfg), pops(&ops));
                        w.check(viol(format!("{}:{:016x}", p.name, hash_s(&what)), format!("{what} => {e}")))?;
                    }
                }
                Ok(())
            }));
            s = e;
        }
    }
    us
}

/// sequences given explicitly
pub fn list(name: &str, cfg: Config, seqs: Vec<Vec<Op>>, eager: bool, whole: bool, chunk: usize) -> Vec<Unit> {
    let mut us = vec![];
    for (ci, c) in seqs.chunks(chunk).enumerate() {
        let c = c.to_vec();
        let cfg = cfg.clone();
        let name = name.to_string();
        us.push(unit(format!("{name} chunk {ci}"), move |w| {
            for ops in &c {
                if w.out_of_time() {
                    break;
                }
                let dir = w.dir(0);
                let d2 = dir.clone();
                w.what = format!("{name} [{}]: {}", pcfg(&cfg), pops(ops));
                let (r, out) =
                    w.session(mcrt::rt::Cfg { dir, ..Default::default() }, || run_ops(&d2, &cfg, ops, eager, whole, true, true, None));
                let r = match r {
                    Ok(_) if !out.panics.is_empty() => Err(format!("panic in a background thread: {:?}", out.panics)),
                    Ok(h) => {
                        w.state(h);
                        Ok(())
                    }
                    Err(e) => Err(e),
                };
                if let Err(e) = r {
                    let what = format!("[{}] {}", pcfg(&cfg), pops(ops));
                    w.check(viol(format!("{name}:{:016x}", hash_s(&what)), format!("{what} => {e}")))?;
                }
            }
            Ok(())
        }));
    }
    us
}
