//! Configurations, key selection, compact printing of operation sequences.
use candystore::Config;
use drv::{Idx, Op, Res, V};
use siphasher::sip128::{Hasher128, SipHasher24};
use std::hash::Hasher;

pub const SEED: [u8; 16] = *b"kOYLu0xvq2WtzcKJ";

/// Small-store configuration. `max`: shard size, `comp`: compaction threshold.
pub fn cfg(max: u32, comp: u32) -> Config {
    Config {
        max_shard_size: max,
        min_compaction_threashold: comp,
        num_compaction_threads: 1,
        truncate_up: false,
        max_concurrent_list_ops: 4,
        ..Default::default()
    }
}
pub const BIG: u32 = 1 << 20;

/// (shard selector, row, signature) of a full key: only used to pick interesting keys.
pub fn ph(full: &[u8]) -> (u32, usize, u32) {
    let mut h = SipHasher24::new_with_key(&SEED);
    h.write(full);
    let x = h.finish128().h1;
    ((x >> 48) as u32, ((x >> 32) & 0x3f) as usize, x as u32)
}
pub fn user_key(k: &[u8]) -> V {
    let mut v = k.to_vec();
    v.push(1);
    v
}
/// n-th key with the given prefix whose user-namespace hash satisfies `f`
pub fn find_key(pre: &str, f: impl Fn(u32, usize, u32) -> bool) -> V {
    for i in 0..50_000_000u64 {
        let k = format!("{pre}{i}").into_bytes();
        let (s, r, g) = ph(&user_key(&k));
        if f(s, r, g) {
            return k;
        }
    }
    panic!("no key")
}
pub fn val(c: u8, n: usize) -> V {
    // values of different `c` differ in every byte, or a mixture of two could not be told from either
    let mut v = vec![c; n];
    for (i, x) in v.iter_mut().enumerate().skip(1) {
        *x = b'!' + ((c as usize * 31 + i * 7) % 90) as u8;
    }
    v
}
pub fn b(s: &str) -> V {
    s.as_bytes().to_vec()
}

fn p(v: &[u8]) -> String {
    if v.len() > 20 {
        format!("{}..{}B", p(&v[..4]), v.len())
    } else {
        v.iter().map(|c| if c.is_ascii_graphic() { (*c as char).to_string() } else { format!("\\x{c:02x}") }).collect()
    }
}
fn po(v: &Option<V>) -> String {
    v.as_ref().map_or("-".into(), |v| p(v))
}
pub fn pop(o: &Op) -> String {
    use Op::*;
    match o {
        Get(k) => format!("get({})", p(k)),
        Contains(k) => format!("contains({})", p(k)),
        Set(k, v) => format!("set({},{})", p(k), p(v)),
        Remove(k) => format!("remove({})", p(k)),
        Replace(k, v, e) => format!("replace({},{},{})", p(k), p(v), po(e)),
        Goc(k, v) => format!("get_or_create({},{})", p(k), p(v)),
        LSet(l, k, v) => format!("lset({},{},{})", p(l), p(k), p(v)),
        LProm(l, k, v) => format!("lpromote({},{},{})", p(l), p(k), p(v)),
        LGet(l, k) => format!("lget({},{})", p(l), p(k)),
        LRemove(l, k) => format!("lremove({},{})", p(l), p(k)),
        LReplace(l, k, v, e) => format!("lreplace({},{},{},{})", p(l), p(k), p(v), po(e)),
        LGoc(l, k, v) => format!("lgoc({},{},{})", p(l), p(k), p(v)),
        QPushH(q, v) => format!("qpushh({},{})", p(q), p(v)),
        QPushT(q, v) => format!("qpusht({},{})", p(q), p(v)),
        QExt(q, v) => format!("qextend({},{})", p(q), v.iter().map(|v| p(v)).collect::<Vec<_>>().join("/")),
        QRemove(q, Idx::Nth(n)) => format!("qremove({},#{n})", p(q)),
        QRemove(q, Idx::Abs(n)) => format!("qremove({},{n})", p(q)),
        BSet(k, v) => format!("bset({},{})", p(k), p(v)),
        BGet(k) => format!("bget({})", p(k)),
        BRemove(k) => format!("bremove({})", p(k)),
        LIter(l) | LIterB(l) | LPopH(l) | LPopT(l) | LPeekH(l) | LPeekT(l) | LLen(l) | LDiscard(l) | QPopH(l) | QPopT(l)
        | QPopHI(l) | QPopTI(l) | QPeekH(l) | QPeekT(l) | QPeekHI(l) | QPeekTI(l) | QIter(l) | QIterB(l) | QLen(l)
        | QRange(l) | QDiscard(l) => {
            let s = format!("{o:?}");
            format!("{}({})", s.split('(').next().unwrap().to_lowercase(), p(l))
        }
        o => format!("{o:?}").to_lowercase(),
    }
}
pub fn pops(o: &[Op]) -> String {
    o.iter().map(pop).collect::<Vec<_>>().join("; ")
}
pub fn pres(r: &Res) -> String {
    let s = format!("{r:?}");
    if s.len() > 300 {
        format!("{}...", &s[..300])
    } else {
        s
    }
}
pub fn pcfg(c: &Config) -> String {
    format!(
        "max={},comp={},exp={}{}",
        c.max_shard_size,
        c.min_compaction_threashold,
        c.expected_number_of_keys,
        if c.truncate_up { ",trunc" } else { "" }
    )
}
