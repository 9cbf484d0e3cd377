//! Typed wrappers: generic drivers that run a coded operation sequence next to a typed reference model.
use crate::{open, Db};
use candystore::{CandyTypedDeque, CandyTypedKey, CandyTypedList, CandyTypedStore, Config, ListCompactionParams};
use databuf::{DecodeOwned, Encode};
use std::fmt::Debug;

pub trait Dat: Encode + DecodeOwned + Clone + PartialEq + Debug {}
impl<T: Encode + DecodeOwned + Clone + PartialEq + Debug> Dat for T {}
pub trait Key: CandyTypedKey + Clone + PartialEq + Debug {}
impl<T: CandyTypedKey + Clone + PartialEq + Debug> Key for T {}

fn eq<T: PartialEq + Debug>(what: &str, got: candystore::Result<T>, want: T) -> Result<(), String> {
    match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => Err(format!("{what} returned {g:?} expected {want:?}")),
        Err(e) => Err(format!("{what} failed: {e:#}")),
    }
}
struct Assoc<K, V>(Vec<(K, V)>);
impl<K: Clone + PartialEq, V: Clone> Assoc<K, V> {
    fn get(&self, k: &K) -> Option<V> {
        self.0.iter().find(|x| x.0 == *k).map(|x| x.1.clone())
    }
    fn set(&mut self, k: &K, v: &V) -> Option<V> {
        if let Some(x) = self.0.iter_mut().find(|x| x.0 == *k) {
            Some(std::mem::replace(&mut x.1, v.clone()))
        } else {
            self.0.push((k.clone(), v.clone()));
            None
        }
    }
    fn del(&mut self, k: &K) -> Option<V> {
        self.0.iter().position(|x| x.0 == *k).map(|i| self.0.remove(i).1)
    }
}
fn reopen(db: Db, dir: &str, cfg: &Config) -> Result<Db, String> {
    drop(db);
    open(dir, cfg).map_err(|e| format!("reopen failed: {e:?}"))
}

pub const STORE_OPS: u32 = 13;
pub fn store_seq<K: Key, V: Dat>(dir: &str, cfg: &Config, ks: &[K], vs: &[V], seq: &[u32]) -> Result<(), String> {
    let mut db = open(dir, cfg).map_err(|e| format!("{e:?}"))?;
    let (mut m, mut big) = (Assoc::<K, V>(vec![]), Assoc::<K, V>(vec![]));
    let (k0, k1, v0, v1) = (&ks[0], &ks[1 % ks.len()], &vs[0], &vs[1]);
    for c in seq {
        let s = CandyTypedStore::<K, V>::new(db.st.clone());
        let set = |m: &mut Assoc<K, V>, k: &K, v: &V| eq(&format!("set({k:?},{v:?})"), s.set(k, v), m.set(k, v));
        let goc = |m: &mut Assoc<K, V>, k: &K, v: &V| {
            if m.get(k).is_none() {
                m.set(k, v);
            }
            eq(&format!("get_or_create({k:?},{v:?})"), s.get_or_create(k, v), m.get(k).unwrap())
        };
        let rep = |m: &mut Assoc<K, V>, k: &K, v: &V, e: Option<&V>| {
            let want = match m.get(k) {
                Some(o) if e.map_or(true, |e| *e == o) => m.set(k, v),
                _ => None,
            };
            eq(&format!("replace({k:?},{v:?},{e:?})"), s.replace(k, v, e), want)
        };
        match c {
            0 => set(&mut m, k0, v0)?,
            1 => set(&mut m, k0, v1)?,
            2 => set(&mut m, k1, v0)?,
            3 => rep(&mut m, k0, v1, None)?,
            4 => rep(&mut m, k0, v1, Some(v0))?,
            5 => goc(&mut m, k0, v1)?,
            6 => goc(&mut m, k1, v1)?,
            7 => eq("remove", s.remove(k0), m.del(k0))?,
            8 => eq("remove", s.remove(k1), m.del(k1))?,
            9 => eq("set_big", s.set_big(k0, v0), big.set(k0, v0).is_some())?,
            10 => eq("set_big", s.set_big(k1, v1), big.set(k1, v1).is_some())?,
            11 => eq("remove_big", s.remove_big(k0), big.del(k0).is_some())?,
            _ => {
                drop(s);
                db = reopen(db, dir, cfg)?
            }
        }
    }
    for i in 0..2 {
        let s = CandyTypedStore::<K, V>::new(db.st.clone());
        for k in ks {
            eq(&format!("get({k:?})"), s.get(k), m.get(k))?;
            eq(&format!("contains({k:?})"), s.contains(k), m.get(k).is_some())?;
            eq(&format!("get_big({k:?})"), s.get_big(k), big.get(k))?;
        }
        drop(s);
        if let Some(x) = db.st.iter().next() {
            return Err(format!("iterating over the plain keys returned {x:?}"));
        }
        if i == 0 {
            db = reopen(db, dir, cfg)?;
        }
    }
    drop(db);
    Ok(())
}

pub const LIST_OPS: u32 = 14;
pub fn list_seq<L: Key, K: Dat, V: Dat>(dir: &str, cfg: &Config, ls: &[L], ks: &[K], vs: &[V], seq: &[u32]) -> Result<(), String> {
    let mut db = open(dir, cfg).map_err(|e| format!("{e:?}"))?;
    let mut ms: Vec<Assoc<K, V>> = ls.iter().map(|_| Assoc(vec![])).collect();
    let (l0, l1) = (&ls[0], ls.len() - 1);
    let (k0, k1, v0, v1) = (&ks[0], &ks[1 % ks.len()], &vs[0], &vs[1]);
    for c in seq {
        let s = CandyTypedList::<L, K, V>::new(db.st.clone());
        let m = &mut ms[0];
        let rep = |m: &mut Assoc<K, V>, k: &K, v: &V, e: Option<&V>| {
            let want = match m.get(k) {
                Some(o) if e.map_or(true, |e| *e == o) => m.set(k, v),
                _ => None,
            };
            eq(&format!("replace({k:?},{v:?},{e:?})"), s.replace(l0, k, v, e), want)
        };
        match c {
            0 => eq("set", s.set(l0, k0, v0), m.set(k0, v0))?,
            1 => eq("set", s.set(l0, k1, v1), m.set(k1, v1))?,
            2 => eq("set", s.set(l0, k0, v1), m.set(k0, v1))?,
            3 => {
                let old = m.del(k0);
                m.set(k0, v1);
                match s.set_promoting(l0, k0, v1) {
                    // whether the previous value is returned is not specified
                    Ok(None) => {}
                    Ok(o) if o == old => {}
                    o => return Err(format!("set_promoting returned {o:?}")),
                }
            }
            4 => {
                if m.get(k1).is_none() {
                    m.set(k1, v0);
                }
                eq("get_or_create", s.get_or_create(l0, k1, v0), m.get(k1).unwrap())?
            }
            5 => rep(m, k0, v1, None)?,
            6 => rep(m, k0, v1, Some(v0))?,
            7 => eq("remove", s.remove(l0, k0), m.del(k0))?,
            8 => {
                let w = if m.0.is_empty() { None } else { Some(m.0.remove(0)) };
                eq("pop_head", s.pop_head(l0), w)?
            }
            9 => eq("pop_tail", s.pop_tail(l0), m.0.pop())?,
            10 => {
                s.compact_if_needed(l0, ListCompactionParams { min_length: 0, min_holes_ratio: 0.01 }).map_err(|e| format!("compact failed: {e:#}"))?;
            }
            11 => {
                let had = !m.0.is_empty();
                m.0.clear();
                match s.discard(l0) {
                    Ok(x) if x || !had => {}
                    r => return Err(format!("discard returned {r:?}")),
                }
            }
            12 => eq("set", s.set(&ls[l1], k0, v1), ms[l1].set(k0, v1))?,
            _ => {
                drop(s);
                db = reopen(db, dir, cfg)?
            }
        }
    }
    for i in 0..2 {
        let s = CandyTypedList::<L, K, V>::new(db.st.clone());
        for (l, m) in ls.iter().zip(&ms) {
            for k in ks {
                eq(&format!("get({l:?},{k:?})"), s.get(l, k), m.get(k))?;
                eq(&format!("contains({l:?},{k:?})"), s.contains(l, k), m.get(k).is_some())?;
            }
            eq("peek_head", s.peek_head(l), m.0.first().cloned())?;
            eq("peek_tail", s.peek_tail(l), m.0.last().cloned())?;
            eq("len", s.len(l), m.0.len())?;
            eq("iter", s.iter(l).collect(), m.0.clone())?;
            let mut r = m.0.clone();
            r.reverse();
            eq("iter_backwards", s.iter_backwards(l).collect(), r)?;
        }
        drop(s);
        if let Some(x) = db.st.iter().next() {
            return Err(format!("iterating over the plain keys returned {x:?}"));
        }
        if i == 0 {
            db = reopen(db, dir, cfg)?;
        }
    }
    drop(db);
    Ok(())
}

pub const DEQUE_OPS: u32 = 9;
pub fn deque_seq<L: Key, V: Dat>(dir: &str, cfg: &Config, ls: &[L], vs: &[V], seq: &[u32]) -> Result<(), String> {
    let mut db = open(dir, cfg).map_err(|e| format!("{e:?}"))?;
    let mut ms: Vec<Vec<V>> = ls.iter().map(|_| vec![]).collect();
    let (l0, l1) = (&ls[0], ls.len() - 1);
    let (v0, v1) = (&vs[0], &vs[1]);
    fn ph<V>(m: &mut Vec<V>) -> Option<V> {
        if m.is_empty() {
            None
        } else {
            Some(m.remove(0))
        }
    }
    for c in seq {
        let s = CandyTypedDeque::<L, V>::new(db.st.clone());
        let m = &mut ms[0];
        match c {
            0 => {
                m.insert(0, v0.clone());
                eq("push_head", s.push_head(l0, v0), ())?
            }
            1 => {
                m.push(v1.clone());
                eq("push_tail", s.push_tail(l0, v1), ())?
            }
            2 => {
                m.push(v0.clone());
                eq("push_tail", s.push_tail(l0, v0), ())?
            }
            3 => eq("pop_head", s.pop_head(l0), ph(m))?,
            4 => eq("pop_tail", s.pop_tail(l0), m.pop())?,
            5 => {
                let want = s.range(l0).map_err(|e| format!("{e:#}"))?.start;
                eq("pop_head_with_idx", s.pop_head_with_idx(l0), ph(m).map(|v| (want, v)))?
            }
            6 => {
                let want = s.range(l0).map_err(|e| format!("{e:#}"))?.end.wrapping_sub(1);
                eq("pop_tail_with_idx", s.pop_tail_with_idx(l0), m.pop().map(|v| (want, v)))?
            }
            7 => {
                ms[l1].push(v1.clone());
                eq("push_tail", s.push_tail(&ls[l1], v1), ())?
            }
            _ => {
                drop(s);
                db = reopen(db, dir, cfg)?
            }
        }
    }
    for i in 0..2 {
        let s = CandyTypedDeque::<L, V>::new(db.st.clone());
        for (l, m) in ls.iter().zip(&ms) {
            eq("peek_head", s.peek_head(l), m.first().cloned())?;
            eq("peek_tail", s.peek_tail(l), m.last().cloned())?;
            eq("len", s.len(l), m.len())?;
            let r = s.range(l).map_err(|e| format!("range failed: {e:#}"))?;
            if r.len() != m.len() {
                return Err(format!("range returned {r:x?} for {} elements", m.len()));
            }
            let mut w: Vec<(usize, V)> = r.clone().zip(m.iter().cloned()).collect();
            eq("peek_head_with_idx", s.peek_head_with_idx(l), w.first().cloned())?;
            eq("peek_tail_with_idx", s.peek_tail_with_idx(l), w.last().cloned())?;
            eq("iter", s.iter(l).collect(), w.clone())?;
            w.reverse();
            eq("iter_backwards", s.iter_backwards(l).collect(), w)?;
        }
        drop(s);
        if let Some(x) = db.st.iter().next() {
            return Err(format!("iterating over the plain keys returned {x:?}"));
        }
        if i == 0 {
            db = reopen(db, dir, cfg)?;
        }
    }
    drop(db);
    Ok(())
}

/// one operation set per type for the isolation check: everything keyed by a value of type K
trait AnyKey {
    fn set(&self, db: &Db, n: u32) -> Result<(), String>;
    fn check(&self, db: &Db, n: Option<u32>) -> Result<(), String>;
    fn del(&self, db: &Db, n: u32) -> Result<(), String>;
    fn name(&self) -> String;
}
impl<K: Key> AnyKey for K {
    fn set(&self, db: &Db, n: u32) -> Result<(), String> {
        eq("set", CandyTypedStore::<K, u32>::new(db.st.clone()).set(self, &n), None)?;
        eq("list set", CandyTypedList::<K, K, u32>::new(db.st.clone()).set(self, self, &n), None)?;
        eq("push", CandyTypedDeque::<K, u32>::new(db.st.clone()).push_tail(self, &n), ())
    }
    fn check(&self, db: &Db, n: Option<u32>) -> Result<(), String> {
        eq("get", CandyTypedStore::<K, u32>::new(db.st.clone()).get(self), n)?;
        let l = CandyTypedList::<K, K, u32>::new(db.st.clone());
        eq("list get", l.get(self, self), n)?;
        eq("list iter", l.iter(self).collect(), n.iter().map(|n| (self.clone(), *n)).collect::<Vec<_>>())?;
        let q = CandyTypedDeque::<K, u32>::new(db.st.clone());
        eq("queue length", q.len(self), n.iter().count())?;
        eq("queue peek", q.peek_head(self), n)
    }
    fn del(&self, db: &Db, n: u32) -> Result<(), String> {
        eq("remove", CandyTypedStore::<K, u32>::new(db.st.clone()).remove(self), Some(n))?;
        eq("list remove", CandyTypedList::<K, K, u32>::new(db.st.clone()).remove(self, self), Some(n))?;
        eq("pop", CandyTypedDeque::<K, u32>::new(db.st.clone()).pop_head(self), Some(n))
    }
    fn name(&self) -> String {
        format!("{}:{self:?}", std::any::type_name::<K>())
    }
}

macro_rules! ints {
    ($v:ident, $($t:ty),*) => { $( for x in [<$t>::MIN, <$t>::MAX, 0, 1, 7, 97 as $t, <$t>::MAX / 2, <$t>::MAX - 1] {
        if !$v.iter().any(|y: &(String, Box<dyn AnyKey>)| y.0 == x.name()) { $v.push((x.name(), Box::new(x))); } } )* };
}
fn all_keys() -> Vec<(String, Box<dyn AnyKey>)> {
    let mut v: Vec<(String, Box<dyn AnyKey>)> = vec![];
    ints!(v, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    macro_rules! lit { ($($x:expr),*) => { $( v.push(($x.name(), Box::new($x))); )* } }
    lit!(false, true, 'a', '\0', '\u{1}', '\u{7f}', '\u{10ffff}', 'é');
    for s in ["", "a", "\0", "\u{1}", "aa", "abcdefghijklmno", "abcdefghijklmnop"] {
        lit!(s.to_string(), s.as_bytes().to_vec());
    }
    lit!(vec![0xffu8], vec![1u8, 0, 0, 0], vec![0u8; 16], [0u8; 16], [1u8; 16], [0xffu8; 16]);
    v
}
pub fn isolation_count() -> usize {
    all_keys().len()
}
/// every value of every built-in type at once; then every one removed in turn while all others stay
pub fn isolation(dir: &str, cfg: &Config, part: usize, of: usize) -> Result<u64, String> {
    let ks = all_keys();
    let mut db = open(dir, cfg).map_err(|e| format!("{e:?}"))?;
    let mut n = 0;
    for (i, (s, k)) in ks.iter().enumerate() {
        k.check(&db, None).map_err(|e| format!("before storing anything under {s}: {e}"))?;
        k.set(&db, i as u32).map_err(|e| format!("{s}: {e}"))?;
    }
    db = reopen(db, dir, cfg)?;
    for (i, (s, k)) in ks.iter().enumerate() {
        k.check(&db, Some(i as u32)).map_err(|e| format!("{s}: {e}"))?;
    }
    for i in 0..ks.len() {
        if i % of != part {
            continue;
        }
        ks[i].1.del(&db, i as u32).map_err(|e| format!("{}: {e}", ks[i].0))?;
        for (j, (s, k)) in ks.iter().enumerate() {
            k.check(&db, if i == j { None } else { Some(j as u32) }).map_err(|e| format!("after removing {}: {s}: {e}", ks[i].0))?;
            n += 1;
        }
        ks[i].1.set(&db, i as u32).map_err(|e| format!("{}: {e}", ks[i].0))?;
    }
    drop(db);
    Ok(n)
}

type RunFn = fn(&str, &Config, u32, &[u32]) -> Result<(), String>;
macro_rules! table {
    ($( $name:literal, $k:ty, $ks:expr, $v:ty, $vs:expr; )*) => {
        pub fn types() -> Vec<(&'static str, RunFn)> {
            vec![ $( ($name, |dir, cfg, kind, seq| {
                let ks: Vec<$k> = $ks;
                let vs: Vec<$v> = $vs;
                match kind {
                    0 => store_seq::<$k, $v>(dir, cfg, &ks, &vs, seq),
                    1 => list_seq::<$k, $k, $v>(dir, cfg, &ks, &ks, &vs, seq),
                    _ => deque_seq::<$k, $v>(dir, cfg, &ks, &vs, seq),
                }
            }) ),* ]
        }
    };
}
fn st(s: &[&str]) -> Vec<String> {
    s.iter().map(|x| x.to_string()).collect()
}
table! {
    "u8", u8, vec![0, 255, 1], String, st(&["", "x\0y"]);
    "u16", u16, vec![0, 0xffff, 0x100], u8, vec![0, 255];
    "u32", u32, vec![0, u32::MAX, 1], Vec<u8>, vec![vec![], vec![0, 1, 255]];
    "u64", u64, vec![0, u64::MAX, 1 << 63], u64, vec![u64::MAX, 0];
    "u128", u128, vec![0, u128::MAX, 1 << 64], Option<u32>, vec![None, Some(0)];
    "i8", i8, vec![0, -128, -1], bool, vec![false, true];
    "i16", i16, vec![0, i16::MIN, -1], char, vec!['\0', '\u{10ffff}'];
    "i32", i32, vec![0, i32::MIN, -1], i32, vec![-1, i32::MIN];
    "i64", i64, vec![0, i64::MIN, -1], i64, vec![i64::MIN, i64::MAX];
    "i128", i128, vec![0, i128::MIN, -1], i128, vec![i128::MIN, -1];
    "bool", bool, vec![false, true], u16, vec![0, 0xffff];
    "usize", usize, vec![0, usize::MAX, 1], (u8, String), vec![(0, String::new()), (255, "y".repeat(300))];
    "isize", isize, vec![0, isize::MIN, -1], Vec<String>, vec![vec![], st(&["", "a"])];
    "char", char, vec!['\0', '\u{10ffff}', 'a'], usize, vec![0, usize::MAX];
    "String", String, st(&["", "k", "\0"]), String, st(&["v", ""]);
    "bytes", Vec<u8>, vec![vec![], vec![0], vec![0, 0]], Vec<u8>, vec![vec![2], vec![]];
    "uuid", [u8; 16], vec![[0; 16], [255; 16], [1; 16]], u128, vec![0, u128::MAX];
}
