//! In-memory model of a directory: replays the recorded mutation log (`Ev`) and materialises states.
use crate::rt::Ev;
use crate::Map;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PG: usize = 4096;

#[derive(Clone, Default)]
pub struct FileImg {
    pub len: u64,
    pub pages: BTreeMap<u64, Rc<[u8; PG]>>,
}

impl FileImg {
    pub fn write(&mut self, off: u64, data: &[u8]) {
        if data.is_empty() {
            return;
        }
        let end = off + data.len() as u64;
        if end > self.len {
            self.len = end;
        }
        self.poke(off, data);
    }
    fn poke(&mut self, off: u64, data: &[u8]) {
        let mut p = 0usize;
        while p < data.len() {
            let a = off + p as u64;
            let pg = a / PG as u64;
            let o = (a % PG as u64) as usize;
            let n = (PG - o).min(data.len() - p);
            let rc = self.pages.entry(pg).or_insert_with(|| Rc::new([0; PG]));
            Rc::make_mut(rc)[o..o + n].copy_from_slice(&data[p..p + n]);
            p += n;
        }
    }
    pub fn truncate(&mut self, len: u64) {
        if len < self.len {
            let first = (len + PG as u64 - 1) / PG as u64;
            self.pages.retain(|&k, _| k < first);
            if len % PG as u64 != 0 {
                if let Some(rc) = self.pages.get_mut(&(len / PG as u64)) {
                    for b in &mut Rc::make_mut(rc)[(len % PG as u64) as usize..] {
                        *b = 0;
                    }
                }
            }
        }
        self.len = len;
    }
    pub fn read(&self, off: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        for i in 0..n {
            let a = off + i as u64;
            if let Some(p) = self.pages.get(&(a / PG as u64)) {
                v[i] = p[(a % PG as u64) as usize];
            }
        }
        v
    }
    pub fn hash(&self) -> u64 {
        let mut h = crate::mix(7, self.len);
        for (k, p) in &self.pages {
            if p.iter().all(|b| *b == 0) {
                continue;
            }
            h = crate::mix(h, *k);
            h = crate::mix(h, crate::hash_bytes(&p[..]));
        }
        h
    }
    pub fn same(&self, o: &FileImg) -> bool {
        self.hash() == o.hash()
    }
}

/// Directory image: name -> inode id -> contents.
#[derive(Clone, Default)]
pub struct Image {
    pub names: BTreeMap<String, u32>,
    pub files: Map<u32, FileImg>,
}

impl Image {
    pub fn apply(&mut self, ev: &Ev) {
        match ev {
            Ev::Create { fid, name } => {
                self.names.insert(name.clone(), *fid);
                self.files.insert(*fid, FileImg::default());
            }
            Ev::Trunc { fid, len } => self.files.entry(*fid).or_default().truncate(*len),
            Ev::Write { fid, off, data } => self.files.entry(*fid).or_default().write(*off, data),
            Ev::Rename { from, to } => {
                if let Some(f) = self.names.remove(from) {
                    self.names.insert(to.clone(), f);
                }
            }
            Ev::Unlink { name } => {
                self.names.remove(name);
            }
            Ev::Sync { .. } | Ev::Mark(..) => {}
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = 11;
        for (n, f) in &self.names {
            h = crate::mix(h, crate::hash_bytes(n.as_bytes()));
            h = crate::mix(h, self.files[f].hash());
        }
        h
    }
    /// Write this image as real files under `dir` (which must exist and be empty of tracked files).
    pub fn materialize(&self, dir: &str) {
        use std::os::unix::fs::FileExt;
        for (n, f) in &self.names {
            let img = &self.files[f];
            let file = std::fs::OpenOptions::new()
                .create(true)
                .write(true)
                .truncate(true)
                .open(format!("{dir}/{n}"))
                .expect("materialize open");
            file.set_len(img.len).expect("materialize set_len");
            let mut run: Vec<u8> = vec![];
            let mut start = 0u64;
            let mut next = u64::MAX;
            let flush = |run: &mut Vec<u8>, start: u64| {
                if !run.is_empty() {
                    let off = start * PG as u64;
                    let n = (run.len() as u64).min(img.len.saturating_sub(off)) as usize;
                    file.write_all_at(&run[..n], off).expect("materialize write");
                    run.clear();
                }
            };
            for (k, p) in &img.pages {
                if p.iter().all(|b| *b == 0) {
                    continue;
                }
                if *k != next {
                    flush(&mut run, start);
                    start = *k;
                }
                run.extend_from_slice(&p[..]);
                next = *k + 1;
            }
            flush(&mut run, start);
        }
    }
    /// Load an image from a real directory; inode ids are assigned in name order from `first_fid`.
    pub fn from_dir(dir: &str, first_fid: u32) -> Image {
        use std::os::fd::AsRawFd;
        use std::os::unix::fs::FileExt;
        let mut img = Image::default();
        let mut names: Vec<String> = std::fs::read_dir(dir)
            .expect("from_dir")
            .filter_map(|e| e.ok())
            .filter(|e| e.file_type().map(|t| t.is_file()).unwrap_or(false))
            .map(|e| e.file_name().to_string_lossy().to_string())
            .filter(|n| n != ".lock")
            .collect();
        names.sort();
        for (i, n) in names.into_iter().enumerate() {
            let fid = first_fid + i as u32;
            let f = std::fs::File::open(format!("{dir}/{n}")).unwrap();
            let len = f.metadata().unwrap().len();
            let mut fi = FileImg { len, pages: Default::default() };
            let fd = f.as_raw_fd();
            let mut pos = 0i64;
            loop {
                let d = unsafe { libc::lseek(fd, pos, libc::SEEK_DATA) };
                if d < 0 {
                    break;
                }
                let h = unsafe { libc::lseek(fd, d, libc::SEEK_HOLE) };
                let h = if h < 0 { len as i64 } else { h };
                let mut buf = vec![0u8; (h - d) as usize];
                f.read_exact_at(&mut buf, d as u64).unwrap();
                for (j, c) in buf.chunks(PG).enumerate() {
                    if c.iter().any(|b| *b != 0) {
                        let mut pg = [0u8; PG];
                        pg[..c.len()].copy_from_slice(c);
                        fi.pages.insert(d as u64 / PG as u64 + j as u64, Rc::new(pg));
                    }
                }
                pos = h;
            }
            img.names.insert(n, fid);
            img.files.insert(fid, fi);
        }
        img
    }
}
