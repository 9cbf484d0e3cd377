//! Reference semantics of the public API, independent of the implementation.
use drv::{Idx, Op, Res, V};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Eq, Hash, Default, Debug)]
pub struct M {
    pub kv: BTreeMap<V, V>,
    pub typed: BTreeMap<u32, V>,
    pub lists: BTreeMap<V, Vec<(V, V)>>,
    pub queues: BTreeMap<V, Vec<(usize, V)>>,
    pub big: BTreeMap<V, V>,
}

/// everything an op sequence may touch
#[derive(Clone, Default, Debug)]
pub struct Uni {
    pub kv: BTreeSet<V>,
    pub typed: BTreeSet<u32>,
    pub lists: BTreeMap<V, BTreeSet<V>>,
    pub queues: BTreeSet<V>,
    pub big: BTreeSet<V>,
}

impl Uni {
    pub fn of<'a>(ops: impl IntoIterator<Item = &'a Op>) -> Uni {
        let mut u = Uni::default();
        for o in ops {
            u.add(o);
        }
        u
    }
    pub fn add(&mut self, o: &Op) {
        use Op::*;
        match o {
            Get(k) | Contains(k) | Set(k, _) | Remove(k) | Replace(k, ..) | Goc(k, _) => {
                self.kv.insert(k.clone());
            }
            TGet(k) | TContains(k) | TSet(k, _) | TRemove(k) | TReplace(k, ..) | TGoc(k, _) => {
                self.typed.insert(*k);
            }
            LSet(l, k, _) | LProm(l, k, _) | LGet(l, k) | LRemove(l, k) | LReplace(l, k, ..) | LGoc(l, k, _) => {
                self.lists.entry(l.clone()).or_default().insert(k.clone());
            }
            LIter(l) | LIterB(l) | LPopH(l) | LPopT(l) | LPeekH(l) | LPeekT(l) | LLen(l) | LDiscard(l) | LCompact(l, _) => {
                self.lists.entry(l.clone()).or_default();
            }
            QPushH(q, _) | QPushT(q, _) | QExt(q, _) | QPopH(q) | QPopT(q) | QPopHI(q) | QPopTI(q) | QPeekH(q)
            | QPeekT(q) | QPeekHI(q) | QPeekTI(q) | QRemove(q, _) | QIter(q) | QIterB(q) | QLen(q) | QRange(q)
            | QDiscard(q) => {
                self.queues.insert(q.clone());
            }
            BSet(k, _) | BGet(k) | BRemove(k) => {
                self.big.insert(k.clone());
            }
            Iter | RawCount | Merge(_) | Flush | Clear | Stats | Reopen | Quiesce => {}
        }
    }
}

fn okv(x: Option<&(V, V)>) -> Res {
    Res::OptKV(x.cloned())
}

pub fn resolve(i: &Idx, idxs: &[usize]) -> usize {
    match i {
        Idx::Nth(n) => idxs.get(*n).copied().unwrap_or(3),
        Idx::Abs(n) => *n,
    }
}

/// indices handed out by an operation, to be recorded for later `Idx::Nth` references
pub fn pushed(op: &Op, res: &Res, idxs: &mut Vec<usize>) {
    match (op, res) {
        (Op::QPushH(..) | Op::QPushT(..), Res::Num(i)) => idxs.push(*i),
        (Op::QExt(..), Res::Range(a, b)) => idxs.extend(*a..*b),
        _ => {}
    }
}

impl M {
    fn prune(&mut self) {
        self.lists.retain(|_, v| !v.is_empty());
        self.queues.retain(|_, v| !v.is_empty());
    }

    /// Is `res` an allowed result of `op` in this state? If so move to the resulting state.
    pub fn accept(&mut self, op: &Op, res: &Res, idxs: &[usize]) -> bool {
        let ok = self.step(op, res, idxs);
        self.prune();
        ok
    }

    fn step(&mut self, op: &Op, res: &Res, idxs: &[usize]) -> bool {
        use Op::*;
        if matches!(res, Res::Err(_) | Res::Panic(_)) {
            return false;
        }
        match op {
            Get(k) => *res == Res::Opt(self.kv.get(k).cloned()),
            Contains(k) => *res == Res::Bool(self.kv.contains_key(k)),
            Set(k, v) => {
                let p = self.kv.insert(k.clone(), v.clone());
                *res == p.map_or(Res::Created(None), Res::Prev)
            }
            Remove(k) => *res == Res::Opt(self.kv.remove(k)),
            Replace(k, v, e) => match self.kv.get_mut(k) {
                None => *res == Res::Missing,
                Some(cur) => {
                    if e.as_ref().map_or(false, |e| e != cur) {
                        *res == Res::Wrong(cur.clone())
                    } else {
                        let old = std::mem::replace(cur, v.clone());
                        *res == Res::Prev(old)
                    }
                }
            },
            Goc(k, v) => match self.kv.get(k) {
                Some(c) => *res == Res::Existing(c.clone()),
                None => {
                    self.kv.insert(k.clone(), v.clone());
                    *res == Res::Created(Some(v.clone()))
                }
            },
            TGet(k) => *res == Res::Opt(self.typed.get(k).cloned()),
            TContains(k) => *res == Res::Bool(self.typed.contains_key(k)),
            TSet(k, v) => *res == Res::Opt(self.typed.insert(*k, v.clone().into_bytes())),
            TRemove(k) => *res == Res::Opt(self.typed.remove(k)),
            TReplace(k, v, e) => match self.typed.get_mut(k) {
                None => *res == Res::Opt(None),
                Some(cur) => {
                    if e.as_ref().map_or(false, |e| e.as_bytes() != &cur[..]) {
                        *res == Res::Opt(None)
                    } else {
                        let old = std::mem::replace(cur, v.clone().into_bytes());
                        *res == Res::Opt(Some(old))
                    }
                }
            },
            TGoc(k, v) => {
                let x = self.typed.entry(*k).or_insert_with(|| v.clone().into_bytes());
                *res == Res::Opt(Some(x.clone()))
            }
            LSet(l, k, v) => {
                let li = self.lists.entry(l.clone()).or_default();
                match li.iter_mut().find(|x| x.0 == *k) {
                    Some(x) => {
                        let old = std::mem::replace(&mut x.1, v.clone());
                        *res == Res::Prev(old)
                    }
                    None => {
                        li.push((k.clone(), v.clone()));
                        *res == Res::Created(None)
                    }
                }
            }
            LProm(l, k, v) => {
                let li = self.lists.entry(l.clone()).or_default();
                let old = li.iter().position(|x| x.0 == *k).map(|i| li.remove(i).1);
                li.push((k.clone(), v.clone()));
                *res == Res::Created(None) || old.map_or(false, |o| *res == Res::Prev(o))
            }
            LGet(l, k) => {
                let x = self.lists.get(l).and_then(|li| li.iter().find(|x| x.0 == *k)).map(|x| x.1.clone());
                *res == Res::Opt(x)
            }
            LRemove(l, k) => {
                let x = self
                    .lists
                    .get_mut(l)
                    .and_then(|li| li.iter().position(|x| x.0 == *k).map(|i| li.remove(i).1));
                *res == Res::Opt(x)
            }
            LReplace(l, k, v, e) => {
                match self.lists.get_mut(l).and_then(|li| li.iter_mut().find(|x| x.0 == *k)) {
                    None => *res == Res::Missing,
                    Some(x) => {
                        if e.as_ref().map_or(false, |e| *e != x.1) {
                            *res == Res::Wrong(x.1.clone())
                        } else {
                            let old = std::mem::replace(&mut x.1, v.clone());
                            *res == Res::Prev(old)
                        }
                    }
                }
            }
            LGoc(l, k, v) => {
                let li = self.lists.entry(l.clone()).or_default();
                match li.iter().find(|x| x.0 == *k) {
                    Some(x) => *res == Res::Existing(x.1.clone()),
                    None => {
                        li.push((k.clone(), v.clone()));
                        *res == Res::Created(Some(v.clone()))
                    }
                }
            }
            LIter(l) => *res == Res::KVs(self.lists.get(l).cloned().unwrap_or_default()),
            LIterB(l) => {
                let mut v = self.lists.get(l).cloned().unwrap_or_default();
                v.reverse();
                *res == Res::KVs(v)
            }
            LPeekH(l) => *res == okv(self.lists.get(l).and_then(|x| x.first())),
            LPeekT(l) => *res == okv(self.lists.get(l).and_then(|x| x.last())),
            LPopH(l) => {
                let x = self.lists.get_mut(l).filter(|x| !x.is_empty()).map(|x| x.remove(0));
                *res == Res::OptKV(x)
            }
            LPopT(l) => {
                let x = self.lists.get_mut(l).and_then(|x| x.pop());
                *res == Res::OptKV(x)
            }
            LLen(l) => *res == Res::Num(self.lists.get(l).map_or(0, |x| x.len())),
            LDiscard(l) => match self.lists.remove(l) {
                Some(_) => *res == Res::Bool(true),
                // an empty list and a missing list are not distinguished
                None => matches!(res, Res::Bool(_)),
            },
            LCompact(l, _) => match self.lists.get(l) {
                Some(_) => matches!(res, Res::Bool(_)),
                None => matches!(res, Res::Bool(_)),
            },
            QPushH(q, v) => {
                let qu = self.queues.entry(q.clone()).or_default();
                let Res::Num(i) = res else { return false };
                if qu.iter().any(|x| x.0 <= *i) {
                    return false;
                }
                qu.insert(0, (*i, v.clone()));
                true
            }
            QPushT(q, v) => {
                let qu = self.queues.entry(q.clone()).or_default();
                let Res::Num(i) = res else { return false };
                if qu.iter().any(|x| x.0 >= *i) {
                    return false;
                }
                qu.push((*i, v.clone()));
                true
            }
            QExt(q, vs) => {
                let qu = self.queues.entry(q.clone()).or_default();
                let Res::Range(a, b) = res else { return false };
                if b.checked_sub(*a) != Some(vs.len()) || (vs.len() > 0 && qu.iter().any(|x| x.0 >= *a)) {
                    return false;
                }
                for (j, v) in vs.iter().enumerate() {
                    qu.push((a + j, v.clone()));
                }
                true
            }
            QPopH(q) => {
                let x = self.queues.get_mut(q).filter(|x| !x.is_empty()).map(|x| x.remove(0).1);
                *res == Res::Opt(x)
            }
            QPopT(q) => {
                let x = self.queues.get_mut(q).and_then(|x| x.pop()).map(|x| x.1);
                *res == Res::Opt(x)
            }
            QPopHI(q) => {
                let x = self.queues.get_mut(q).filter(|x| !x.is_empty()).map(|x| x.remove(0));
                *res == Res::OptIV(x)
            }
            QPopTI(q) => {
                let x = self.queues.get_mut(q).and_then(|x| x.pop());
                *res == Res::OptIV(x)
            }
            QPeekH(q) => *res == Res::Opt(self.queues.get(q).and_then(|x| x.first()).map(|x| x.1.clone())),
            QPeekT(q) => *res == Res::Opt(self.queues.get(q).and_then(|x| x.last()).map(|x| x.1.clone())),
            QPeekHI(q) => *res == Res::OptIV(self.queues.get(q).and_then(|x| x.first()).cloned()),
            QPeekTI(q) => *res == Res::OptIV(self.queues.get(q).and_then(|x| x.last()).cloned()),
            QRemove(q, i) => {
                let i = resolve(i, idxs);
                let x = self
                    .queues
                    .get_mut(q)
                    .and_then(|qu| qu.iter().position(|x| x.0 == i).map(|p| qu.remove(p).1));
                *res == Res::Opt(x)
            }
            QIter(q) => *res == Res::IVs(self.queues.get(q).cloned().unwrap_or_default()),
            QIterB(q) => {
                let mut v = self.queues.get(q).cloned().unwrap_or_default();
                v.reverse();
                *res == Res::IVs(v)
            }
            QLen(q) => *res == Res::Num(self.queues.get(q).map_or(0, |x| x.len())),
            QRange(q) => {
                let Res::Range(a, b) = res else { return false };
                a <= b && self.queues.get(q).map_or(true, |x| x.iter().all(|y| *a <= y.0 && y.0 < *b))
            }
            QDiscard(q) => match self.queues.remove(q) {
                Some(_) => *res == Res::Bool(true),
                None => matches!(res, Res::Bool(_)),
            },
            BSet(k, v) => *res == Res::Bool(self.big.insert(k.clone(), v.clone()).is_some()),
            BGet(k) => *res == Res::Opt(self.big.get(k).cloned()),
            BRemove(k) => *res == Res::Bool(self.big.remove(k).is_some()),
            Iter => {
                let Res::KVs(v) = res else { return false };
                let mut v = v.clone();
                v.sort();
                v == self.kv.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>()
            }
            RawCount => matches!(res, Res::Num(_)),
            Merge(_) => matches!(res, Res::Bool(_)),
            Flush | Reopen | Quiesce => *res == Res::Unit,
            Clear => {
                *self = M::default();
                *res == Res::Unit
            }
            Stats => matches!(res, Res::Stats(_)),
        }
    }

    /// Compute the (index-free) effect of an operation whose result is not known.
    pub fn force(&mut self, op: &Op, idxs: &[usize]) {
        use Op::*;
        let top = |m: &M, q: &V| m.queues.get(q).and_then(|x| x.last()).map_or(1usize << 62, |x| x.0 + 1);
        match op {
            QPushH(q, v) => {
                let i = self.queues.get(q).and_then(|x| x.first()).map_or(1usize << 62, |x| x.0 - 1);
                self.queues.entry(q.clone()).or_default().insert(0, (i, v.clone()));
            }
            QPushT(q, v) => {
                let i = top(self, q);
                self.queues.entry(q.clone()).or_default().push((i, v.clone()));
            }
            QExt(q, vs) => {
                for v in vs {
                    let i = top(self, q);
                    self.queues.entry(q.clone()).or_default().push((i, v.clone()));
                }
            }
            _ => {
                // the step function moves to the successor state for every other op regardless of `res`
                let _ = self.step(op, &Res::Unit, idxs);
            }
        }
        self.prune();
    }

    /// All states that may be observed if the process dies while `op` is executing.
    pub fn in_flight(&self, op: &Op, idxs: &[usize]) -> Vec<M> {
        let mut v = vec![self.clone()];
        let mut after = self.clone();
        after.force(op, idxs);
        match op {
            Op::QExt(q, vs) => {
                for n in 1..vs.len() {
                    let mut m = self.clone();
                    m.force(&Op::QExt(q.clone(), vs[..n].to_vec()), idxs);
                    v.push(m);
                }
            }
            Op::QDiscard(q) => {
                // elements disappear from the head on
                let n = self.queues.get(q).map_or(0, |x| x.len());
                for i in 1..n {
                    let mut m = self.clone();
                    m.queues.get_mut(q).unwrap().drain(..i);
                    v.push(m);
                }
            }
            Op::LDiscard(l) => {
                let n = self.lists.get(l).map_or(0, |x| x.len());
                for i in 1..n {
                    let mut m = self.clone();
                    m.lists.get_mut(l).unwrap().drain(..i);
                    v.push(m);
                }
            }
            Op::Clear => {
                // some of the shards are gone
                let keys: Vec<V> = self.kv.keys().cloned().collect();
                for mask in 0..1u32 << keys.len() {
                    let mut m = self.clone();
                    for (i, k) in keys.iter().enumerate() {
                        if mask >> i & 1 == 0 {
                            m.kv.remove(k);
                        }
                    }
                    let mut e = M::default();
                    e.kv = m.kv.clone();
                    v.push(m);
                    v.push(e);
                }
            }
            Op::LProm(l, k, _) => {
                let mut m = self.clone();
                m.force(&Op::LRemove(l.clone(), k.clone()), idxs);
                v.push(m);
            }
            Op::BSet(k, _) | Op::BRemove(k) => {
                // nothing, or whole chunks from the beginning or up to the end of one of the values
                let mut with = |x: Option<&[u8]>| {
                    let mut m = self.clone();
                    match x {
                        Some(x) => m.big.insert(k.clone(), x.to_vec()),
                        None => m.big.remove(k),
                    };
                    v.push(m);
                };
                with(None);
                for x in [self.big.get(k), after.big.get(k)].into_iter().flatten() {
                    let mut i = candystore::MAX_VALUE_SIZE;
                    while i < x.len() {
                        with(Some(&x[..i]));
                        with(Some(&x[i..]));
                        i += candystore::MAX_VALUE_SIZE;
                    }
                }
            }
            _ => {}
        }
        v.push(after);
        v.dedup();
        v
    }
}

/// What can be read back from a store.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Obs {
    pub m: M,
    pub llen: BTreeMap<V, usize>,
    pub qlen: BTreeMap<V, usize>,
}

fn b(v: &[u8]) -> String {
    if v.len() > 24 {
        format!("{}..({} bytes)", b(&v[..8]), v.len())
    } else {
        v.iter()
            .map(|c| if c.is_ascii_graphic() { (*c as char).to_string() } else { format!("\\x{c:02x}") })
            .collect()
    }
}
pub fn short(m: &M) -> String {
    let mut s = String::new();
    for (k, v) in &m.kv {
        s += &format!("{}={} ", b(k), b(v));
    }
    for (k, v) in &m.typed {
        s += &format!("typed {k}={} ", b(v));
    }
    for (k, v) in &m.lists {
        s += &format!("list {}={:?} ", b(k), v.iter().map(|x| format!("{}:{}", b(&x.0), b(&x.1))).collect::<Vec<_>>());
    }
    for (k, v) in &m.queues {
        s += &format!("queue {}={:?} ", b(k), v.iter().map(|x| format!("{:x}:{}", x.0, b(&x.1))).collect::<Vec<_>>());
    }
    for (k, v) in &m.big {
        s += &format!("big {}={} ", b(k), b(v));
    }
    if s.is_empty() {
        s = "<empty>".into();
    }
    s
}

impl M {
    /// same contents, ignoring the numeric queue indices
    pub fn same(&self, o: &M) -> bool {
        self.kv == o.kv
            && self.typed == o.typed
            && self.lists == o.lists
            && self.big == o.big
            && self.queues.len() == o.queues.len()
            && self.queues.iter().all(|(k, v)| {
                o.queues.get(k).map_or(false, |w| {
                    v.len() == w.len() && v.iter().zip(w).all(|(a, b)| a.1 == b.1)
                })
            })
    }
}

/// Read everything in `uni` back through the public API and check that the different views of the
/// same data agree with each other. `exact_len`: reported lengths must equal the element counts.
pub fn observe(x: &mut dyn FnMut(&Op) -> Res, uni: &Uni, exact_len: bool, whole: bool) -> Result<Obs, String> {
    let mut o = Obs::default();
    let mut ex = |op: Op| -> Result<Res, String> {
        match x(&op) {
            Res::Err(e) => Err(format!("{op:?} failed: {e:?}")),
            Res::Panic(e) => Err(format!("{op:?} panicked: {e}")),
            r => Ok(r),
        }
    };
    for k in &uni.kv {
        let g = ex(Op::Get(k.clone()))?;
        let c = ex(Op::Contains(k.clone()))?;
        let Res::Opt(g) = g else { unreachable!() };
        if c != Res::Bool(g.is_some()) {
            return Err(format!("contains({})={c:?} but get={g:?}", b(k)));
        }
        if let Some(v) = g {
            o.m.kv.insert(k.clone(), v);
        }
    }
    for k in &uni.typed {
        if let Res::Opt(Some(v)) = ex(Op::TGet(*k))? {
            o.m.typed.insert(*k, v);
        }
    }
    for (l, items) in &uni.lists {
        let Res::KVs(f) = ex(Op::LIter(l.clone()))? else { unreachable!() };
        let Res::KVs(mut r) = ex(Op::LIterB(l.clone()))? else { unreachable!() };
        r.reverse();
        if f != r {
            return Err(format!("list {}: forward {f:?} and backward {r:?} iteration disagree", b(l)));
        }
        let ks: BTreeSet<&V> = f.iter().map(|x| &x.0).collect();
        if ks.len() != f.len() {
            return Err(format!("list {}: duplicate item in iteration {f:?}", b(l)));
        }
        for k in items {
            let Res::Opt(g) = ex(Op::LGet(l.clone(), k.clone()))? else { unreachable!() };
            let w = f.iter().find(|x| x.0 == *k).map(|x| x.1.clone());
            if g != w {
                return Err(format!("list {}: get({})={g:?} but iteration has {w:?}", b(l), b(k)));
            }
        }
        let h = ex(Op::LPeekH(l.clone()))?;
        let t = ex(Op::LPeekT(l.clone()))?;
        if h != okv(f.first()) || t != okv(f.last()) {
            return Err(format!("list {}: peek {h:?}/{t:?} disagrees with iteration {f:?}", b(l)));
        }
        let Res::Num(n) = ex(Op::LLen(l.clone()))? else { unreachable!() };
        if (exact_len && n != f.len()) || n < f.len() {
            return Err(format!("list {}: length {n} but {} elements", b(l), f.len()));
        }
        o.llen.insert(l.clone(), n);
        if !f.is_empty() {
            o.m.lists.insert(l.clone(), f);
        }
    }
    for q in &uni.queues {
        let Res::IVs(f) = ex(Op::QIter(q.clone()))? else { unreachable!() };
        let Res::IVs(mut r) = ex(Op::QIterB(q.clone()))? else { unreachable!() };
        r.reverse();
        if f != r {
            return Err(format!("queue {}: forward {f:?} and backward {r:?} iteration disagree", b(q)));
        }
        if !f.windows(2).all(|w| w[0].0 < w[1].0) {
            return Err(format!("queue {}: indices not increasing {f:?}", b(q)));
        }
        let h = ex(Op::QPeekHI(q.clone()))?;
        let t = ex(Op::QPeekTI(q.clone()))?;
        if h != Res::OptIV(f.first().cloned()) || t != Res::OptIV(f.last().cloned()) {
            return Err(format!("queue {}: peek {h:?}/{t:?} disagrees with iteration {f:?}", b(q)));
        }
        let Res::Num(n) = ex(Op::QLen(q.clone()))? else { unreachable!() };
        if (exact_len && n != f.len()) || n < f.len() {
            return Err(format!("queue {}: length {n} but {} elements", b(q), f.len()));
        }
        let Res::Range(s, e) = ex(Op::QRange(q.clone()))? else { unreachable!() };
        if s > e || f.iter().any(|x| x.0 < s || x.0 >= e) {
            return Err(format!("queue {}: range {s:#x}..{e:#x} does not cover {f:?}", b(q)));
        }
        o.qlen.insert(q.clone(), n);
        if !f.is_empty() {
            o.m.queues.insert(q.clone(), f);
        }
    }
    for k in &uni.big {
        if let Res::Opt(Some(v)) = ex(Op::BGet(k.clone()))? {
            o.m.big.insert(k.clone(), v);
        }
    }
    if whole {
        let Res::KVs(v) = ex(Op::Iter)? else { unreachable!() };
        let mut v2 = v.clone();
        v2.sort();
        if v2 != o.m.kv.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>() {
            return Err(format!(
                "full iteration returned {:?} but point lookups give {}",
                v.iter().map(|x| format!("{}={}", b(&x.0), b(&x.1))).collect::<Vec<_>>(),
                short(&o.m)
            ));
        }
    }
    Ok(o)
}
