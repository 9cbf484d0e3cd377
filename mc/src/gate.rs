//! What an open does with files it must not read: wrong magic, version or length, and files of others.
use crate::crash::{follow_up, record};
use crate::fw::*;
use crate::model::{short, Uni, M};
use crate::util::*;
use candystore::Config;
use drv::{Op, V};
use mcrt::image::Image;
use mcrt::rt::Cfg;
use mcrt::Ev;
use std::collections::BTreeMap;
use Op::*;

/// the length of a shard file with no entries, and the version it states
static FORM: std::sync::OnceLock<(usize, [u8; 8])> = std::sync::OnceLock::new();
fn header() -> usize {
    FORM.get().unwrap().0
}
fn version() -> [u8; 8] {
    FORM.get().unwrap().1
}

struct Base {
    name: String,
    cfg: Config,
    img: Image,
    /// allowed contents
    ok: Vec<M>,
    uni: Uni,
}

fn span(n: &str) -> Option<(u32, u32)> {
    let (a, b) = n.split_once('_')?.1.split_once('-')?;
    Some((u32::from_str_radix(a, 16).ok()?, u32::from_str_radix(b, 16).ok()?))
}
fn kv(i: usize, c: u8) -> Op {
    Set(format!("k{i}").into_bytes(), val(c, 20))
}

fn form(w: &mut Wk) -> Result<(), String> {
    let c = cfg(BIG, BIG);
    let h = record(w, &c, &c, &[], false)?;
    let mut img = h.init_img.clone();
    h.log.iter().for_each(|e| img.apply(e));
    let f = img.names.iter().find(|n| n.0.starts_with("shard_")).map(|n| &img.files[n.1]).ok_or("a new store has no shard file")?;
    let _ = FORM.set((f.len as usize, f.read(8, 8).try_into().unwrap()));
    Ok(())
}

/// Images of stores at rest and of interrupted ones, one for each set of files that occurs
fn bases(w: &mut Wk, all: bool) -> Result<Vec<Base>, String> {
    let a = find_key("a", |s, _, _| s < 0x4000);
    let c = find_key("b", |s, _, _| s >= 0x8000);
    let progs: Vec<(&str, Config, Vec<Op>)> = vec![
        ("empty", cfg(BIG, BIG), vec![]),
        ("one", cfg(BIG, BIG), vec![kv(0, b'a'), kv(1, b'b'), Remove(b("k0")), LSet(b("L"), b("x"), v20()), QPushT(b("Q"), v20()), BSet(b("B"), val(b'z', 70_000))]),
        ("split", cfg(60, BIG), vec![Set(a.clone(), v20()), Set(c.clone(), v20()), kv(0, b'a'), kv(1, b'b'), kv(2, b'c')]),
        ("merge", cfg(60, BIG), vec![Set(a.clone(), v20()), Set(c.clone(), v20()), kv(0, b'a'), kv(1, b'b'), Remove(b("k0")), Remove(b("k1")), Merge(40_000)]),
        ("compact", cfg(BIG, 20), vec![Set(a.clone(), v20()), Set(c.clone(), v20()), Set(a.clone(), val(b'1', 20)), Set(c.clone(), val(b'2', 20)), Quiesce, Set(c.clone(), val(b'3', 20)), Quiesce]),
        ("presized", { let mut x = cfg(4000, BIG); x.truncate_up = true; x.expected_number_of_keys = 100_000; x }, vec![kv(0, b'a'), kv(1, b'b'), kv(2, b'c')]),
    ];
    let mut out = vec![];
    for (name, cf, ops) in progs {
        let h = record(w, &cf, &cf, &ops, false)?;
        let mut img = h.init_img.clone();
        let (mut op, mut fl, mut begun) = (0usize, false, false);
        let mut seen: BTreeMap<Vec<(String, bool)>, usize> = BTreeMap::new();
        for i in 0..=h.log.len() {
            let last = i == h.log.len();
            let key: Vec<(String, bool)> = img.names.iter().map(|(n, f)| (n.clone(), img.files[f].len >= header() as u64)).collect();
            let k = seen.entry(key.clone()).or_insert(0);
            // the store at rest; of each set of files the first, and some more while a compaction is under way
            let comp = key.iter().any(|x| x.0.starts_with("compact_") && x.1);
            let want = last || (begun && if comp { all || *k % 12 == 0 } else { *k == 0 });
            *k += 1;
            if want {
                let ok = if fl { h.flight[op].clone() } else { vec![h.before[op].clone()] };
                out.push(Base { name: format!("{name} ({})", if last { "at rest".into() } else { format!("killed after {i} of {} effects", h.log.len()) }), cfg: cf.clone(), img: img.clone(), ok, uni: h.uni.clone() });
            }
            if let Some(e) = h.log.get(i) {
                match e {
                    Ev::Mark(1, n) => {
                        (op, fl) = (*n as usize, true);
                        begun = true;
                    }
                    Ev::Mark(2, n) => (op, fl) = (*n as usize + 1, false),
                    _ => img.apply(e),
                }
            }
        }
    }
    Ok(out)
}
fn v20() -> V {
    val(b'w', 20)
}

/// shard files that are not halves of, or superseded by, a larger one
fn kept(img: &Image) -> Vec<String> {
    let sh: Vec<&String> = img.names.keys().filter(|n| n.starts_with("shard_")).collect();
    sh.iter()
        .filter(|n| {
            let s = span(n).unwrap();
            !sh.iter().any(|o| o != *n && span(o).map_or(false, |o| o.0 <= s.0 && o.1 >= s.1))
        })
        .map(|n| n.to_string())
        .collect()
}

fn files(dir: &str) -> BTreeMap<Vec<u8>, Option<Vec<u8>>> {
    use std::os::unix::ffi::OsStrExt;
    std::fs::read_dir(dir)
        .unwrap()
        .flatten()
        .filter(|e| !e.file_name().as_bytes().starts_with(b".lock"))
        .map(|e| (e.file_name().as_bytes().to_vec(), if e.path().is_file() { Some(std::fs::read(e.path()).unwrap()) } else { None }))
        .collect()
}

fn attempt(w: &mut Wk, dir: &str, c: &Config) -> Result<Result<(), String>, String> {
    let d2 = dir.to_string();
    let c = c.clone();
    let (r, out) = w.session(Cfg { dir: dir.into(), ..Default::default() }, move || {
        let r = open(&d2, &c);
        r.map(close)
    });
    if !out.panics.is_empty() {
        return Err(format!("panic in a background thread: {:?}", out.panics));
    }
    match r {
        Err(e) if e.starts_with("open panicked") => Err(e),
        r => Ok(r),
    }
}

/// open, compare, use, reopen, compare
fn works(w: &mut Wk, dir: &str, c: &Config, ok: &[M], uni: &Uni, use_it: bool) -> Result<(), String> {
    let d2 = dir.to_string();
    let (r, out) = w.session(Cfg { dir: dir.into(), ..Default::default() }, || -> Result<(), String> {
        let db = open(&d2, c)?;
        let r = (|| {
            let o = obs(&db, uni, false, true)?;
            if !ok.iter().any(|m| m.same(&o.m)) {
                return Err(format!("contents {} expected {}", short(&o.m), ok.iter().map(short).collect::<Vec<_>>().join(" | ")));
            }
            let mut m = o.m;
            if use_it {
                follow_up(&db, &mut m, uni, true)?;
            }
            Ok(m)
        })();
        close(db);
        let m = r?;
        let db = open(&d2, c).map_err(|e| format!("reopened: {e}"))?;
        let o = obs(&db, uni, false, true);
        close(db);
        let o = o.map_err(|e| format!("reopened: {e}"))?;
        if !m.same(&o.m) {
            return Err(format!("reopened: contents {} expected {}", short(&o.m), short(&m)));
        }
        Ok(())
    });
    r?;
    if !out.panics.is_empty() {
        return Err(format!("panic in a background thread: {:?}", out.panics));
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Alt {
    Magic(usize),
    ZeroMagic,
    Version(u64),
    ZeroBoth,
    /// the beginning of the file was lost
    Zero(usize),
    Len(usize),
}
fn alter(b: &[u8], a: &Alt) -> Vec<u8> {
    let mut v = b.to_vec();
    match a {
        Alt::Magic(i) => v[*i] ^= 0x20,
        Alt::ZeroMagic => v[..8].fill(0),
        Alt::Version(n) => v[8..16].copy_from_slice(&n.to_le_bytes()),
        Alt::ZeroBoth => v[..16].fill(0),
        Alt::Zero(n) => v[..*n].fill(0),
        Alt::Len(n) => v.truncate(*n),
    }
    v
}
fn alts(q: bool) -> Vec<Alt> {
    let mut a: Vec<Alt> = if q { vec![0, 3, 7] } else { (0..8).collect() }.into_iter().map(Alt::Magic).collect();
    a.extend([Alt::ZeroMagic, Alt::ZeroBoth]);
    let h = header();
    let zero: &[usize] = if q { &[64, 4096, h / 2, h - 4096] } else { &[32, 64, 1024, 4096, 8192, 65536, h / 4, h / 2, h * 3 / 4, h - 4096, h - 8] };
    a.extend(zero.iter().map(|n| Alt::Zero(*n)));
    let ver = u64::from_le_bytes(version());
    for n in [0, 1, ver - 1, ver + 1, ver << 8, ver | 1 << 32, u64::MAX] {
        a.push(Alt::Version(n));
    }
    let lens: &[usize] = if q { &[1, 8, 15, 16, 17, 4096, header() - 1] } else { &[1, 7, 8, 9, 15, 16, 17, 24, 4095, 4096, 4097, header() / 2, header() - 4096, header() - 1] };
    a.extend(lens.iter().map(|n| Alt::Len(*n)));
    a
}

fn without(m: &M, s: (u32, u32)) -> M {
    let mut m = m.clone();
    m.kv.retain(|k, _| {
        let x = ph(&user_key(k)).0;
        !(s.0 <= x && x < s.1)
    });
    m
}

fn variants(c: &Config) -> Vec<Config> {
    let mut v = vec![];
    for clear in [false, true] {
        for trunc in [false, true] {
            let mut x = c.clone();
            x.clear_on_unsupported_version = clear;
            x.truncate_up = trunc;
            v.push(x);
        }
    }
    v
}

fn altered(w: &mut Wk, bs: &Base, f: &str, al: &Alt, c: &Config) -> Result<(), String> {
    let dir = w.dir(0);
    bs.img.materialize(&dir);
    let path = format!("{dir}/{f}");
    let orig = std::fs::read(&path).unwrap();
    if orig.len() < header() {
        return Ok(());
    }
    let bad = alter(&orig, al);
    if bad == orig {
        return Ok(());
    }
    // a new file that was never written to looks like this when the process is killed early
    let fresh = bad.len() >= header() && bad[..8] == [0; 8] && bad[16..header()].iter().all(|b| *b == 0) && (bad[8..16] == [0; 8] || bad[8..16] == version());
    if fresh {
        return Ok(());
    }
    std::fs::write(&path, &bad).unwrap();
    w.add("alterations", 1);
    let one = kept(&bs.img).len() == 1;
    if !kept(&bs.img).iter().any(|n| n == f) {
        // to be removed anyway
        return works(w, &dir, c, &bs.ok, &bs.uni, false);
    }
    let before = files(&dir);
    if c.clear_on_unsupported_version {
        let ok: Vec<M> = bs.ok.iter().map(|m| if one { M::default() } else { without(m, span(f).unwrap()) }).collect();
        works(w, &dir, c, &ok, &bs.uni, true)
    } else {
        for _ in 0..2 {
            if attempt(w, &dir, c)?.is_ok() {
                return Err("the store opened".into());
            }
        }
        let after = files(&dir);
        for (n, b) in &before {
            let name = String::from_utf8_lossy(n);
            if name.contains(f.split_once('_').unwrap().1) && !name.starts_with("bottom_") && !name.starts_with("top_") && !name.starts_with("merge_") && after.get(n) != Some(b) {
                return Err(format!("{name} was changed by the failed open"));
            }
        }
        std::fs::write(&path, &orig).unwrap();
        works(w, &dir, c, &bs.ok, &bs.uni, true).map_err(|e| format!("with the file put right: {e}"))
    }
}

/// a file without all of its entries: what is read must be right, or fail
fn cut_data(w: &mut Wk, bs: &Base, f: &str, len: usize, c: &Config) -> Result<(), String> {
    let dir = w.dir(0);
    bs.img.materialize(&dir);
    let file = std::fs::OpenOptions::new().write(true).open(format!("{dir}/{f}")).unwrap();
    file.set_len(len as u64).unwrap();
    drop(file);
    w.add("truncations", 1);
    let d2 = dir.clone();
    let keys: Vec<V> = bs.uni.kv.iter().cloned().collect();
    let ok = &bs.ok;
    let (r, out) = w.session(Cfg { dir: dir.clone(), ..Default::default() }, || -> Result<(), String> {
        let db = match open(&d2, c) {
            Ok(d) => d,
            Err(e) if e.starts_with("open panicked") => return Err(e),
            Err(_) => return Ok(()),
        };
        let mut r = Ok(());
        for k in &keys {
            let got = ex(&db, &Get(k.clone()), &[]);
            let fine = match &got {
                drv::Res::Err(_) => true,
                drv::Res::Opt(o) => ok.iter().any(|m| m.kv.get(k) == o.as_ref()),
                _ => false,
            };
            if !fine {
                r = Err(format!("{} returned {}", pop(&Get(k.clone())), pres(&got)));
            }
        }
        if let drv::Res::Panic(p) = ex(&db, &Iter, &[]) {
            r = Err(format!("iterating panicked: {p}"));
        }
        close(db);
        r
    });
    r?;
    if !out.panics.is_empty() {
        return Err(format!("panic in a background thread: {:?}", out.panics));
    }
    Ok(())
}

fn foreign_names() -> Vec<(Vec<u8>, bool)> {
    let mut v: Vec<(Vec<u8>, bool)> = [
        "shard_", "shard_-", "shard_foo", "shard_foo-bar", "shard_0000", "shard_0000-", "shard_-8000", "shard_0000-zzzz", "shard_0000-10000.bak", "shard_0000-10000~", ".shard_0000-10000",
        "shard_0-10000", "shard_00000-10000", "shard_0000-010000", "shard_+000-10000", "shard_0000-+8000", "shard_0000-FFFF", "shard_0000-8000-10000", "shard_0000_8000", "shard_fffffffff-10000", "shard_ 000-8000",
        "SHARD_0000-10000", "shard-0000-10000", "shards_0000-10000", "compact_", "compact_disc", "compact_0000-10000.old", "bottom_", "bottom_line.txt", "bottom_0-8000", "top_secret", "top_10-songs", "top_8000-10000.txt", "merge_", "merge_notes",
        "merge_a-b", "lock", "README", "_0000-10000", "x_0000-10000", "shard_0000-10000\n",
    ]
    .iter()
    .map(|s| (s.as_bytes().to_vec(), false))
    .collect();
    v.push((b"shard_0000-\xff000".to_vec(), false));
    v.push((b"\xff\xfe".to_vec(), false));
    for d in ["shard_1234-1235", "bottom_1234-1235", "top_1235-1236", "merge_1234-1236", "shard_x", "sub"] {
        v.push((d.as_bytes().to_vec(), true));
    }
    v
}

fn beside(w: &mut Wk, bs: &Base, n: &[u8], isdir: bool, c: &Config) -> Result<(), String> {
    use std::os::unix::ffi::OsStrExt;
    let r = beside_(w, bs, n, isdir, c);
    let _ = std::fs::remove_dir(std::path::Path::new(&w.keep_dir(0)).join(std::ffi::OsStr::from_bytes(n)));
    r
}
fn beside_(w: &mut Wk, bs: &Base, n: &[u8], isdir: bool, c: &Config) -> Result<(), String> {
    use std::os::unix::ffi::OsStrExt;
    let dir = w.dir(0);
    bs.img.materialize(&dir);
    let path = std::path::Path::new(&dir).join(std::ffi::OsStr::from_bytes(n));
    if path.exists() {
        return Ok(());
    }
    let body: Vec<u8> = (0..5000u32).map(|i| (i * 7) as u8).collect();
    if isdir {
        std::fs::create_dir(&path).unwrap();
    } else {
        std::fs::write(&path, &body).unwrap();
    }
    w.add("foreign_files", 1);
    let same = |when: &str| -> Result<(), String> {
        let fine = if isdir { path.is_dir() } else { std::fs::read(&path).map_or(false, |b| b == body) };
        if fine {
            Ok(())
        } else {
            Err(format!("{when} the unrelated file was changed or removed"))
        }
    };
    let r = works(w, &dir, c, &bs.ok, &bs.uni, true);
    same("using the store:")?;
    r?;
    let d2 = dir.clone();
    let (r, _) = w.session(Cfg { dir: dir.clone(), ..Default::default() }, || -> Result<(), String> {
        let db = open(&d2, c)?;
        let x = ex(&db, &Clear, &[]);
        close(db);
        if x != drv::Res::Unit {
            return Err(format!("clear returned {}", pres(&x)));
        }
        Ok(())
    });
    same("clearing the store:")?;
    r?;
    let r = works(w, &dir, c, &[M::default()], &bs.uni, true);
    same("using the cleared store:")?;
    r
}

/// named exactly as a shard, but no shard has that span
fn impossible(w: &mut Wk, bs: &Base, n: &str, c: &Config) -> Result<(), String> {
    let dir = w.dir(0);
    bs.img.materialize(&dir);
    let path = format!("{dir}/{n}");
    let body = vec![7u8; 5000];
    std::fs::write(&path, &body).unwrap();
    let _ = attempt(w, &dir, c)?;
    if std::fs::read(&path).map_or(true, |b| b != body) {
        return Err("the file was changed or removed".into());
    }
    std::fs::remove_file(&path).unwrap();
    works(w, &dir, c, &bs.ok, &bs.uni, false).map_err(|e| format!("with the file removed: {e}"))
}

pub fn c24(t: Tier) -> Vec<Unit> {
    let q = t == Tier::Quick;
    let parts = 24usize;
    (0..parts)
        .map(|part| {
            unit(format!("files of part {part} of {parts}: altered, truncated, foreign"), move |w| {
                let x = if part == 0 { form(w) } else { Ok(()) };
                if part == 0 && x.is_ok() {
                    w.sample(|| format!("every alteration of {:?} of every file; every truncation; files named {:?}", alts(q), foreign_names().iter().map(|n| String::from_utf8_lossy(&n.0).to_string()).collect::<Vec<_>>()));
                }
                let bs = match form(w).and_then(|_| bases(w, !q)) {
                    Ok(b) => b,
                    Err(e) => return viol("setup", e),
                };
                let mut n = 0usize;
                let mut mine = || {
                    n += 1;
                    n % parts == part
                };
                for b in &bs {
                    for c in variants(&b.cfg) {
                        let conf = format!("[{}{}] {}", pcfg(&c), if c.clear_on_unsupported_version { ",clear" } else { "" }, b.name);
                        let mut todo: Vec<(String, Box<dyn Fn(&mut Wk) -> Result<(), String>>)> = vec![];
                        for f in b.img.names.keys().filter(|n| n.starts_with("shard_")) {
                            for al in alts(q) {
                                let (f, al, c) = (f.clone(), al.clone(), c.clone());
                                todo.push((format!("{f} altered: {al:?}"), Box::new(move |w| altered(w, b, &f, &al, &c))));
                            }
                            let len = b.img.files[&b.img.names[f]].len as usize;
                            if b.name.ends_with("(at rest)") && len < header() + 1000 {
                                for l in header()..len {
                                    let (f, c) = (f.clone(), c.clone());
                                    todo.push((format!("{f} truncated to {l} of {len}"), Box::new(move |w| cut_data(w, b, &f, l, &c))));
                                }
                            }
                        }
                        for (n, d) in foreign_names() {
                            let c = c.clone();
                            todo.push((format!("beside {} {:?}", if d { "a directory" } else { "a file" }, String::from_utf8_lossy(&n)), Box::new(move |w| beside(w, b, &n, d, &c))));
                        }
                        for n in ["shard_8000-0000", "shard_0000-0000", "shard_0000-20000", "shard_20000-30000", "shard_ffff-1ffff"] {
                            let c = c.clone();
                            todo.push((format!("beside {n}"), Box::new(move |w| impossible(w, b, n, &c))));
                        }
                        {
                            let c = c.clone();
                            todo.push(("unaltered".into(), Box::new(move |w| {
                                let dir = w.dir(0);
                                b.img.materialize(&dir);
                                works(w, &dir, &c, &b.ok, &b.uni, true)
                            })));
                        }
                        for (what, run) in todo {
                            if !mine() {
                                continue;
                            }
                            if w.out_of_time() {
                                return Ok(());
                            }
                            let what = format!("{conf}: {what}");
                            w.what = what.clone();
                            w.state(hash_s(&what));
                            if let Err(e) = run(w) {
                                w.check(viol(format!("gate:{:016x}", hash_s(&what)), format!("{what} => {e}")))?;
                            }
                        }
                    }
                }
                Ok(())
            })
        })
        .collect()
}
