//! Everything the harness ever calls on the store, behind one `Op` enum. Compiled with the same
//! instrumentation as the store itself because generic store code is instantiated here.
use candystore::{
    CandyError, CandyStore, CandyTypedStore, Config, GetOrCreateStatus,
    ListCompactionParams, ReplaceStatus, SetStatus,
};
use std::sync::Arc;

pub mod typed;

pub type V = Vec<u8>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Idx {
    /// index returned by the n-th successful push of this run
    Nth(usize),
    /// literal
    Abs(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Get(V),
    Contains(V),
    Set(V, V),
    Remove(V),
    Replace(V, V, Option<V>),
    Goc(V, V),
    // typed store, u32 -> String
    TGet(u32),
    TContains(u32),
    TSet(u32, String),
    TRemove(u32),
    TReplace(u32, String, Option<String>),
    TGoc(u32, String),
    // lists
    LSet(V, V, V),
    LProm(V, V, V),
    LGet(V, V),
    LRemove(V, V),
    LReplace(V, V, V, Option<V>),
    LGoc(V, V, V),
    LIter(V),
    LIterB(V),
    LPopH(V),
    LPopT(V),
    LPeekH(V),
    LPeekT(V),
    LLen(V),
    LDiscard(V),
    /// compact when at least this many percent of the span are holes
    LCompact(V, u32),
    // queues
    QPushH(V, V),
    QPushT(V, V),
    QExt(V, Vec<V>),
    QPopH(V),
    QPopT(V),
    QPopHI(V),
    QPopTI(V),
    QPeekH(V),
    QPeekT(V),
    QPeekHI(V),
    QPeekTI(V),
    QRemove(V, Idx),
    QIter(V),
    QIterB(V),
    QLen(V),
    QRange(V),
    QDiscard(V),
    // big values
    BSet(V, V),
    BGet(V),
    BRemove(V),
    // whole store
    Iter,
    RawCount,
    /// merge_small_shards(n / 100000)
    Merge(u32),
    Flush,
    Clear,
    Stats,
    Reopen,
    /// let background work finish (harness action)
    Quiesce,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum E {
    KeyTooLong(usize),
    ValueTooLong(usize),
    NoFit(usize, usize),
    Other(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Res {
    Unit,
    Bool(bool),
    Num(usize),
    Opt(Option<V>),
    Created(Option<V>),
    Prev(V),
    Wrong(V),
    Missing,
    Existing(V),
    OptKV(Option<(V, V)>),
    OptIV(Option<(usize, V)>),
    KVs(Vec<(V, V)>),
    IVs(Vec<(usize, V)>),
    Range(usize, usize),
    Stats(St),
    Err(E),
    Panic(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct St {
    pub num_shards: usize,
    pub num_splits: usize,
    pub num_compactions: usize,
    pub occupied: usize,
    pub wasted: usize,
    pub inserts: usize,
    pub removals: usize,
    pub updates: usize,
    pub pos: usize,
    pub neg: usize,
    pub rops: usize,
    pub rbytes: usize,
    pub wops: usize,
    pub wbytes: usize,
    pub hist: [usize; 5],
    pub nsplit_stats: usize,
    pub ncomp_stats: usize,
    pub coll: usize,
    /// num_entries, data_bytes, total_occupied_bytes, average_entry_size, required_num_shards
    pub derived: [usize; 5],
    pub should_merge: bool,
}

fn err(e: anyhow_like::Error) -> E {
    if let Some(c) = e.downcast_ref::<CandyError>() {
        match c {
            CandyError::KeyTooLong(n) => E::KeyTooLong(*n),
            CandyError::ValueTooLong(n) => E::ValueTooLong(*n),
            CandyError::EntryCannotFitInShard(a, b) => E::NoFit(*a, *b),
        }
    } else {
        E::Other(format!("{e:#}"))
    }
}
mod anyhow_like {
    /// the error type of `candystore::Result`
    pub type Error = <candystore::Result<()> as Unpack>::E;
    pub trait Unpack {
        type E;
    }
    impl<T, E> Unpack for Result<T, E> {
        type E = E;
    }
}

fn w<T>(r: candystore::Result<T>, f: impl FnOnce(T) -> Res) -> Res {
    match r {
        Ok(x) => f(x),
        Err(e) => Res::Err(err(e)),
    }
}
fn off(what: &str) -> Res {
    Res::Err(E::Other(format!("what {what} says about itself is wrong")))
}
fn set(s: SetStatus) -> Res {
    let new = matches!(s, SetStatus::CreatedNew);
    if s.was_created() != new || s.was_replaced() == new {
        return off("SetStatus");
    }
    match s {
        SetStatus::CreatedNew => Res::Created(None),
        SetStatus::PrevValue(v) => Res::Prev(v),
    }
}
fn rep(s: ReplaceStatus) -> Res {
    let (done, miss) = (matches!(s, ReplaceStatus::PrevValue(_)), matches!(s, ReplaceStatus::DoesNotExist));
    if s.was_replaced() != done || s.failed() == done || s.is_key_missing() != miss || s.is_wrong_value() == (done || miss) {
        return off("ReplaceStatus");
    }
    match s {
        ReplaceStatus::PrevValue(v) => Res::Prev(v),
        ReplaceStatus::WrongValue(v) => Res::Wrong(v),
        ReplaceStatus::DoesNotExist => Res::Missing,
    }
}
fn goc(s: GetOrCreateStatus) -> Res {
    let new = matches!(s, GetOrCreateStatus::CreatedNew(_));
    let (GetOrCreateStatus::CreatedNew(v) | GetOrCreateStatus::ExistingValue(v)) = &s;
    if s.was_created() != new || s.already_exists() == new || s.clone().value() != *v {
        return off("GetOrCreateStatus");
    }
    match s {
        GetOrCreateStatus::CreatedNew(v) => Res::Created(Some(v)),
        GetOrCreateStatus::ExistingValue(v) => Res::Existing(v),
    }
}
fn st(o: Option<String>) -> Res {
    Res::Opt(o.map(|s| s.into_bytes()))
}
fn kvs(it: impl Iterator<Item = candystore::Result<(V, V)>>) -> Res {
    let mut v = vec![];
    for x in it {
        match x {
            Ok(kv) => v.push(kv),
            Err(e) => return Res::Err(err(e)),
        }
        if v.len() > 100_000 {
            return Res::Err(E::Other("iterator does not terminate".into()));
        }
    }
    Res::KVs(v)
}
fn ivs(it: impl Iterator<Item = candystore::Result<(usize, V)>>) -> Res {
    let mut v = vec![];
    for x in it {
        match x {
            Ok(kv) => v.push(kv),
            Err(e) => return Res::Err(err(e)),
        }
    }
    Res::IVs(v)
}

pub fn stats_of(db: &CandyStore) -> St {
    let s = db.stats();
    let sane = s.num_inserts >= s.num_removals && s.occupied_bytes >= s.wasted_bytes;
    St {
        coll: s.num_collisions,
        derived: if sane { [s.num_entries(), s.data_bytes(), s.total_occupied_bytes(), s.average_entry_size(), s.required_num_shards()] } else { [0; 5] },
        should_merge: sane && s.should_merge_small_shards(),
        num_shards: s.num_shards,
        num_splits: s.num_splits,
        num_compactions: s.num_compactions,
        occupied: s.occupied_bytes,
        wasted: s.wasted_bytes,
        inserts: s.num_inserts,
        removals: s.num_removals,
        updates: s.num_updates,
        pos: s.num_positive_lookups,
        neg: s.num_negative_lookups,
        rops: s.num_read_ops,
        rbytes: s.num_read_bytes,
        wops: s.num_write_ops,
        wbytes: s.num_write_bytes,
        hist: [s.entries_under_128, s.entries_under_1k, s.entries_under_8k, s.entries_under_32k, s.entries_over_32k],
        nsplit_stats: s.last_split_stats.len(),
        ncomp_stats: s.last_compaction_stats.len(),
    }
}

pub struct Db {
    pub st: Arc<CandyStore>,
}

pub fn open(dir: &str, cfg: &Config) -> Result<Db, E> {
    CandyStore::open(dir, cfg.clone()).map(|s| Db { st: Arc::new(s) }).map_err(err)
}

pub fn exec(d: &Db, op: &Op, idxs: &[usize]) -> Res {
    let db: &CandyStore = &d.st;
    let ts = || CandyTypedStore::<u32, String>::new(d.st.clone());
    match op {
        Op::Get(k) => w(db.get(k), Res::Opt),
        Op::Contains(k) => w(db.contains(k), Res::Bool),
        Op::Set(k, v) => w(db.set(k, v), set),
        Op::Remove(k) => w(db.remove(k), Res::Opt),
        Op::Replace(k, v, e) => w(db.replace(k, v, e.as_ref()), rep),
        Op::Goc(k, v) => w(db.get_or_create(k, v), goc),
        Op::TGet(k) => w(ts().get(k), st),
        Op::TContains(k) => w(ts().contains(k), Res::Bool),
        Op::TSet(k, v) => w(ts().set(k, v), st),
        Op::TRemove(k) => w(ts().remove(k), st),
        Op::TReplace(k, v, e) => w(ts().replace(k, v, e.as_ref()), st),
        Op::TGoc(k, v) => w(ts().get_or_create(k, v), |s| Res::Opt(Some(s.into_bytes()))),
        Op::LSet(l, k, v) => w(db.set_in_list(l, k, v), set),
        Op::LProm(l, k, v) => w(db.set_in_list_promoting(l, k, v), set),
        Op::LGet(l, k) => w(db.get_from_list(l, k), Res::Opt),
        Op::LRemove(l, k) => w(db.remove_from_list(l, k), Res::Opt),
        Op::LReplace(l, k, v, e) => w(db.replace_in_list(l, k, v, e.as_ref()), rep),
        Op::LGoc(l, k, v) => w(db.get_or_create_in_list(l, k, v), goc),
        Op::LIter(l) => kvs(db.iter_list(l)),
        Op::LIterB(l) => kvs(db.iter_list_backwards(l)),
        Op::LPopH(l) => w(db.pop_list_head(l), Res::OptKV),
        Op::LPopT(l) => w(db.pop_list_tail(l), Res::OptKV),
        Op::LPeekH(l) => w(db.peek_list_head(l), Res::OptKV),
        Op::LPeekT(l) => w(db.peek_list_tail(l), Res::OptKV),
        Op::LLen(l) => w(db.list_len(l), Res::Num),
        Op::LDiscard(l) => w(db.discard_list(l), Res::Bool),
        Op::LCompact(l, pct) => w(
            db.compact_list_if_needed(
                l,
                ListCompactionParams { min_length: 0, min_holes_ratio: *pct as f64 / 100.0 },
            ),
            Res::Bool,
        ),
        Op::QPushH(q, v) => w(db.push_to_queue_head(q, v), Res::Num),
        Op::QPushT(q, v) => w(db.push_to_queue_tail(q, v), Res::Num),
        Op::QExt(q, vs) => w(db.extend_queue(q, vs.iter()), |r| Res::Range(r.start, r.end)),
        Op::QPopH(q) => w(db.pop_queue_head(q), Res::Opt),
        Op::QPopT(q) => w(db.pop_queue_tail(q), Res::Opt),
        Op::QPopHI(q) => w(db.pop_queue_head_with_idx(q), Res::OptIV),
        Op::QPopTI(q) => w(db.pop_queue_tail_with_idx(q), Res::OptIV),
        Op::QPeekH(q) => w(db.peek_queue_head(q), Res::Opt),
        Op::QPeekT(q) => w(db.peek_queue_tail(q), Res::Opt),
        Op::QPeekHI(q) => w(db.peek_queue_head_with_idx(q), Res::OptIV),
        Op::QPeekTI(q) => w(db.peek_queue_tail_with_idx(q), Res::OptIV),
        Op::QRemove(q, i) => {
            let i = match i {
                Idx::Nth(n) => idxs.get(*n).copied().unwrap_or(3),
                Idx::Abs(n) => *n,
            };
            w(db.remove_from_queue(q, i), Res::Opt)
        }
        Op::QIter(q) => ivs(db.iter_queue(q)),
        Op::QIterB(q) => ivs(db.iter_queue_backwards(q)),
        Op::QLen(q) => w(db.queue_len(q), Res::Num),
        Op::QRange(q) => w(db.queue_range(q), |r| Res::Range(r.start, r.end)),
        Op::QDiscard(q) => w(db.discard_queue(q), Res::Bool),
        Op::BSet(k, v) => w(db.set_big(k, v), Res::Bool),
        Op::BGet(k) => w(db.get_big(k), Res::Opt),
        Op::BRemove(k) => w(db.remove_big(k), Res::Bool),
        Op::Iter => kvs(db.iter()),
        Op::RawCount => {
            let mut n = 0;
            for x in db.iter_raw() {
                if let Err(e) = x {
                    return Res::Err(err(e));
                }
                n += 1;
            }
            Res::Num(n)
        }
        Op::Merge(p) => w(db.merge_small_shards(*p as f32 / 100_000.0), Res::Bool),
        Op::Flush => w(db.flush(), |_| Res::Unit),
        Op::Clear => w(db.clear(), |_| Res::Unit),
        Op::Stats => Res::Stats(stats_of(db)),
        Op::Reopen | Op::Quiesce => Res::Unit,
    }
}

/// raw entries: (full key, value)
pub fn raw_entries(d: &Db) -> Res {
    kvs(d.st.iter_raw())
}

/// iterate with a cookie round trip after `at` items
pub fn iter_cookie(d: &Db, at: usize) -> (Vec<(V, V)>, u64, Vec<(V, V)>) {
    let mut it = d.st.iter();
    let mut a = vec![];
    for _ in 0..at {
        match it.next() {
            Some(Ok(kv)) => a.push(kv),
            Some(Err(e)) => panic!("iteration failed: {e:#}"),
            None => break,
        }
    }
    let c = it.cookie();
    drop(it);
    let mut b = vec![];
    for x in d.st.iter_from_cookie(c) {
        b.push(x.expect("iteration failed"));
        if b.len() > 100_000 {
            panic!("iterator does not terminate");
        }
    }
    (a, c, b)
}

/// step-wise iteration (one item per call) for concurrency programs
pub fn iter_all(d: &Db, mut each: impl FnMut(&(V, V))) {
    for x in d.st.iter() {
        let kv = x.expect("iteration failed");
        each(&kv);
    }
}


/// a list or a queue
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Seq {
    L(V),
    Q(V),
}
pub type Hint = (usize, Option<usize>);

/// step-wise iteration of a list or queue: (index, key, value) and the size hint, first of the fresh iterator
pub fn iter_seq(d: &Db, on: &Seq, fwd: bool, mut each: impl FnMut(Option<&(usize, V, V)>, Hint)) {
    match on {
        Seq::L(l) => {
            let mut it = if fwd { d.st.iter_list(l) } else { d.st.iter_list_backwards(l) };
            each(None, it.size_hint());
            while let Some(x) = it.next() {
                let (k, v) = x.expect("iteration failed");
                each(Some(&(0, k, v)), it.size_hint());
            }
        }
        Seq::Q(q) => {
            let mut it = if fwd { d.st.iter_queue(q) } else { d.st.iter_queue_backwards(q) };
            each(None, it.size_hint());
            while let Some(x) = it.next() {
                let (i, v) = x.expect("iteration failed");
                each(Some(&(i, vec![], v)), it.size_hint());
            }
        }
    }
}
