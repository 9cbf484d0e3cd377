/// (hash seed, kind: 0 = plain keys, 1 = items of list "L", 2 = list names, names)
fn extreme() -> Vec<(candystore::HashSeed, u8, Vec<&'static str>)> {
    vec![
        (SEED, 0, vec!["c42e277cc4", "c533129019", "c701e5d655"]),
        (SEED, 0, vec!["c701e5d655", "c40e7eb5fe", "c52abc3d80"]),
        (SEED, 1, vec!["i73094fbef", "i2369a8e9f", "i2c91a055"]),
        (SEED, 1, vec!["i2c91a055", "i11cf2a52", "i51e1f2baf"]),
        (SEED, 2, vec!["l336163c82", "l6372b6c86", "l1260619aa"]),
        (SEED, 2, vec!["l1260619aa", "l429662a59", "l336163c82"]),
    ]
}
