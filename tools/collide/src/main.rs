//! One-off search for keys whose real hashes collide (the results are embedded in mc/src/colls.rs).
use siphasher::sip128::SipHasher24;
use std::sync::Mutex;
const SEED: [u8; 16] = *b"kOYLu0xvq2WtzcKJ";
fn h(k: &[u8]) -> (u64, u64) {
    let x = SipHasher24::new_with_key(&SEED).hash(k);
    (x.h1, x.h2)
}
/// the hash as the store uses it
fn ph(k: &[u8]) -> u64 {
    let (h1, h2) = h(k);
    let mut s = h1 as u32;
    if s == 0 {
        s = h2 as u32;
    }
    (h1 & !0xffff_ffff) | s as u64
}
fn name(p: u8, n: u64) -> Vec<u8> {
    let mut v = vec![p];
    v.extend(format!("{n:x}").bytes());
    v
}
fn full(f: u8, n: u64, lm: &[u64; 2]) -> Vec<u8> {
    let mut k;
    match f {
        0 => { k = name(b'c', n); k.push(1) }
        1 => { k = name(b'i', n); k.extend(lm[0].to_le_bytes()); k.push(4) }
        2 => { k = name(b'j', n); k.extend(lm[1].to_le_bytes()); k.push(4) }
        3 => { k = name(b'l', n); k.push(3) }
        4 => { k = name(b'q', n); k.push(6) }
        5 => { k = name(b'q', n); k.extend(0x8000_0000_0000_0000u64.to_le_bytes()); k.push(7) }
        _ => { let mut l = name(b'l', n); l.push(3); k = ph(&l).to_le_bytes().to_vec(); k.extend(0x8000_0000_0000_0000u64.to_le_bytes()); k.push(5) }
    }
    k
}
fn gen(f: u8, n: u64, lm: &[u64; 2]) -> Vec<Mutex<Vec<(u32, u32)>>> {
    let rows: Vec<Mutex<Vec<(u32, u32)>>> = (0..64).map(|_| Mutex::new(Vec::with_capacity((n / 60) as usize))).collect();
    std::thread::scope(|s| {
        for t in 0..8 {
            let rows = &rows;
            s.spawn(move || {
                let mut loc: Vec<Vec<(u32, u32)>> = vec![vec![]; 64];
                let (a, b) = (n / 8 * t, n / 8 * (t + 1));
                for i in a..b {
                    let p = ph(&full(f, i, lm));
                    let r = ((p >> 32) & 63) as usize;
                    loc[r].push((p as u32, i as u32));
                    if loc[r].len() == 4096 {
                        rows[r].lock().unwrap().append(&mut loc[r]);
                    }
                }
                for r in 0..64 {
                    rows[r].lock().unwrap().append(&mut loc[r]);
                }
            });
        }
    });
    std::thread::scope(|s| {
        for r in &rows {
            s.spawn(|| r.lock().unwrap().sort_unstable());
        }
    });
    rows
}
fn main() {
    let lm = [ph(b"L\x03"), ph(b"M\x03")];
    let only_zero = std::env::args().nth(1).is_some();
    let n: u64 = 1 << 28;
    for f in [0u8, 1] {
        if only_zero {
            break;
        }
        let rows = gen(f, n, &lm);
        let (mut tr, mut fu) = (0, 0);
        for (r, v) in rows.iter().enumerate() {
            let v = v.lock().unwrap();
            let mut i = 0;
            while i < v.len() {
                let mut j = i + 1;
                while j < v.len() && v[j].0 == v[i].0 {
                    j += 1;
                }
                let g: Vec<u64> = v[i..j].iter().map(|x| x.1 as u64).collect();
                let sel = |n: u64| ph(&full(f, n, &lm)) >> 48;
                if g.len() >= 3 && tr < 12 {
                    tr += 1;
                    println!("family {f} triple row {r}: {:x?} selectors {:x?}", g, g.iter().map(|n| sel(*n)).collect::<Vec<_>>());
                }
                for a in 0..g.len() {
                    for b in 0..a {
                        let d = (sel(g[a]) ^ sel(g[b])).leading_zeros() - 48;
                        if d >= 12 && fu < 12 {
                            fu += 1;
                            println!("family {f} pair row {r} {:x?} selectors equal in the first {d} bits ({:x})", [g[b], g[a]], sel(g[a]));
                        }
                    }
                }
                i = j;
            }
        }
    }
    // across families
    let m: u64 = 1 << 22;
    for (f, g) in [(0u8, 1u8), (0, 3), (0, 4), (0, 5), (0, 6), (1, 2), (1, 3), (1, 6), (1, 5)] {
        if only_zero {
            break;
        }
        let (a, b) = (gen(f, m, &lm), gen(g, m, &lm));
        let mut c = 0;
        for r in 0..64 {
            let (x, y) = (a[r].lock().unwrap(), b[r].lock().unwrap());
            let (mut i, mut j) = (0, 0);
            while i < x.len() && j < y.len() && c < 2 {
                if x[i].0 == y[j].0 {
                    let s = (ph(&full(f, x[i].1 as u64, &lm)) ^ ph(&full(g, y[j].1 as u64, &lm))) >> 48;
                    if s < 0x8000 {
                        c += 1;
                        println!("families {f}x{g} row {r}: {:x} {:x} selector difference {s:x}", x[i].1, y[j].1);
                    }
                    i += 1;
                } else if x[i].0 < y[j].0 {
                    i += 1;
                } else {
                    j += 1;
                }
            }
        }
    }
    // smallest and largest raw signatures
    for f in [0u8, 1, 3] {
        let found = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for t in 0..8u64 {
                let (found, lm) = (&found, &lm);
                s.spawn(move || {
                    for i in (t << 32)..(t << 32) + (1u64 << 30) {
                        let k = full(f, i, lm);
                        let (h1, h2) = h(&k);
                        if (h1 as u32).wrapping_add(1) <= 2 {
                            found.lock().unwrap().push((i, h1 as u32, (h1 >> 32) & 63, h1 >> 48, h2 as u32));
                        }
                    }
                });
            }
        });
        println!("family {f} (n, signature, row, selector, other half) {:x?}", found.lock().unwrap());
    }
}
