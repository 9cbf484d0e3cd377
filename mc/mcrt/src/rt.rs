//! Session state and the cooperative scheduler. Exactly one managed thread runs at a time; all
//! other managed threads are parked on their baton, so everything here is accessed exclusively.
use crate::{arena, mix, Hook, Map, Set, TID, USER};
use std::sync::atomic::{AtomicU32, Ordering};

pub const NV: usize = 16;
pub type VC = [u32; NV];
pub const WIN: usize = 0x2000_0000_0000;
pub const SLOT: usize = 1 << 20;
pub const NSLOTS: usize = 1 << 15;
pub const WINLEN: usize = SLOT * NSLOTS;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Create { fid: u32, name: String },
    Trunc { fid: u32, len: u64 },
    Write { fid: u32, off: u64, data: Vec<u8> },
    Rename { from: String, to: String },
    Unlink { name: String },
    Sync { fid: u32 },
    /// harness marker (kind, index): operation call/return
    Mark(u32, u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    R,
    W,
    /// commuting read-modify-write
    Add,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Phase {
    Pre,
    Par,
    Post,
}

#[derive(Clone, Copy)]
pub struct Blk {
    pub pred: unsafe fn(*const ()) -> bool,
    pub arg: *const (),
    pub timed: bool,
    pub what: &'static str,
}

#[derive(Clone, Copy)]
pub enum St {
    Run,
    Blk(Blk),
    Done,
}

pub struct Thr {
    pub st: St,
    /// file operations since `par_begin`
    pub nfs: u64,
    pub baton: AtomicU32,
    pub vc: VC,
    pub facq: VC,
    pub frel: VC,
    pub h: u64,
    pub real: libc::pthread_t,
    pub has_real: bool,
    pub reaped: bool,
    pub futex_addr: usize,
    pub futex_woken: bool,
}

#[derive(Default, Clone)]
pub struct Obj {
    pub wh: u64,
    pub rs: u64,
    pub vc: VC,
    pub wm: u32,
    pub rm: u32,
    pub am: u32,
    /// visits in the parallel phase, 8 bits per thread
    pub vis: u64,
}

#[derive(Clone)]
pub struct FileInfo {
    pub ino: (u64, u64),
    pub sid: u64,
    pub name: String,
}

#[derive(Clone, Copy, Default)]
pub struct Region {
    pub start: usize,
    pub len: usize,
    pub fid: u32,
    pub foff: u64,
    pub live: bool,
}

#[derive(Clone, Copy, Default)]
pub struct Cell {
    pub sess: u32,
    pub wt: u8,
    pub wc: u32,
    pub rc: [u32; NV],
}

#[derive(Clone, Debug, Default)]
pub struct Choice {
    pub hash: u64,
    pub n: u8,
    pub taken: u8,
    pub cost: u8,
    pub used: u8,
    pub cur: u8,
}

/// Exploration control for one execution.
#[derive(Default)]
pub struct Ctl {
    pub prefix: Vec<u8>,
    pub prefix_hash: Vec<u64>,
    pub trace: Vec<Choice>,
    pub used: u32,
    pub bound: u32,
    pub branching: bool,
    pub points: Set<u64>,
    pub cache: Map<(u64, u8), u8>,
    pub cache_hits: u64,
    pub diverged: Option<String>,
    pub replay: bool,
    /// a thread may be preempted only at its first `visits` accesses to one object (0: no limit)
    pub visits: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultKind {
    /// fail the call with this errno
    Err(i32),
    /// transfer only half of the bytes (reads/writes), otherwise EINTR-free no-op
    Short,
    /// fail with EINTR once
    Intr,
}
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// count only the calls of this thread, from `par_begin` on (so that it does not depend on the schedule)
    pub thr: Option<usize>,
    pub at: u64,
    pub kind: FaultKind,
    /// every mutating call from `at` on fails too
    pub persist: bool,
}

#[derive(Clone, Default)]
pub struct Cfg {
    pub dir: String,
    pub track: bool,
    pub race: bool,
    pub log: bool,
    pub fault: Option<Fault>,
    pub max_steps: u64,
    /// the order of writes and syncs of a file matters
    pub durable: bool,
    /// the n-th sync fails (and all later ones)
    pub sync_fault: Option<(u64, bool)>,
}

pub struct Rt {
    pub active: bool,
    pub cfg: Cfg,
    pub sess: u32,
    pub thr: Vec<Thr>,
    pub cur: usize,
    pub phase: Phase,
    pub quiescing: bool,
    pub steps: u64,
    pub spin: u32,
    pub clock: u64,
    pub objs: Map<u64, Obj>,
    pub retsum: u64,
    pub ctl: Option<Ctl>,
    pub files: Vec<FileInfo>,
    pub inos: Map<(u64, u64), u32>,
    pub gens: Map<u64, u32>,
    pub fds: Vec<u32>,
    pub fdpos: Vec<u64>,
    pub regions: Vec<Region>,
    pub next_slot: usize,
    pub slot_region: Vec<u16>,
    pub log: Vec<Ev>,
    pub pend: Vec<(usize, usize)>,
    pub shadow: Vec<Vec<Cell>>,
    pub races: Vec<String>,
    pub panics: Vec<String>,
    pub nfs: u64,
    pub fs_trace: Vec<&'static str>,
    pub fault_hit: Option<String>,
    pub switches: u64,
    pub npoints: u64,
    pub leaked: usize,
    pub fs_names: Vec<String>,
    pub want_fs_names: bool,
    pub lockfds: Vec<i32>,
    pub dirfds: Vec<i32>,
    pub nsync: u64,
    pub sync_count: u64,
}

static mut RT: *mut Rt = std::ptr::null_mut();
pub static mut FATAL: Option<fn(&str, &str) -> !> = None;

#[inline(always)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
#[inline(always)]
pub fn managed() -> bool {
    unsafe { TID != u32::MAX }
}
/// managed and currently executing code under test
#[inline(always)]
pub fn under_test() -> bool {
    unsafe { USER && TID != u32::MAX }
}

pub fn die(msg: &str) -> ! {
    let s = format!("mcrt internal error: {msg}\n");
    unsafe {
        libc::write(2, s.as_ptr() as *const _, s.len());
        libc::_exit(70);
    }
}

pub fn fatal(kind: &str, msg: &str) -> ! {
    unsafe {
        USER = false;
        match FATAL {
            Some(f) => f(kind, msg),
            None => die(&format!("{kind}: {msg}")),
        }
    }
}

pub fn init() {
    unsafe {
        if !RT.is_null() {
            return;
        }
        // the first error looks up, and caches, whether to capture backtraces
        drop(std::backtrace::Backtrace::capture());
        RT = Box::into_raw(Box::new(Rt {
            active: false,
            cfg: Cfg::default(),
            sess: 0,
            thr: Vec::with_capacity(arena::MAX_THREADS),
            cur: 0,
            phase: Phase::Pre,
            quiescing: false,
            steps: 0,
            spin: 0,
            clock: 0,
            objs: Map::default(),
            retsum: 0,
            ctl: None,
            files: vec![],
            inos: Map::default(),
            gens: Map::default(),
            fds: vec![u32::MAX; 4096],
            fdpos: vec![0; 4096],
            regions: vec![],
            next_slot: 0,
            slot_region: vec![u16::MAX; NSLOTS],
            log: vec![],
            pend: vec![],
            shadow: vec![],
            races: vec![],
            panics: vec![],
            nfs: 0,
            fs_trace: vec![],
            fault_hit: None,
            switches: 0,
            npoints: 0,
            leaked: 0,
            fs_names: vec![],
            want_fs_names: false,
            lockfds: vec![],
            dirfds: vec![],
            nsync: 0,
            sync_count: 0,
        }));
        // reserve the mmap window
        let r = crate::sys::raw6(
            libc::SYS_mmap,
            WIN,
            WINLEN,
            libc::PROT_NONE as usize,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED) as usize,
            usize::MAX,
            0,
        );
        if r as usize != WIN {
            die("window reservation failed");
        }
        std::panic::set_hook(Box::new(|info| {
            let _h = Hook::enter();
            let m = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "<non-string panic>".into());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if managed() && rt().active {
                rt().panics.push(format!("{m} @ {loc}"));
            } else {
                eprintln!("panic: {m} @ {loc}");
            }
        }));
        // pre-warm std statics that allocate lazily
        let _ = std::thread::spawn(|| {}).join();
    }
}

fn new_thr() -> Thr {
    Thr {
        st: St::Run,
        baton: AtomicU32::new(0),
        vc: [0; NV],
        facq: [0; NV],
        frel: [0; NV],
        nfs: 0,
        h: 0,
        real: 0,
        has_real: false,
        reaped: false,
        futex_addr: 0,
        futex_woken: false,
    }
}

#[inline]
pub fn vjoin(a: &mut VC, b: &VC) {
    for i in 0..NV {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

unsafe fn baton_wait(t: usize) {
    let b = &rt().thr[t].baton as *const AtomicU32;
    while (*b).swap(0, Ordering::Acquire) == 0 {
        crate::sys::raw6(
            libc::SYS_futex,
            b as usize,
            (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize,
            0,
            0,
            0,
            0,
        );
    }
}
unsafe fn baton_give(t: usize) {
    let b = &rt().thr[t].baton as *const AtomicU32;
    (*b).store(1, Ordering::Release);
    crate::sys::raw6(
        libc::SYS_futex,
        b as usize,
        (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize,
        1,
        0,
        0,
        0,
    );
}

impl Rt {
    pub fn begin(&mut self, cfg: Cfg) {
        self.active = true;
        self.sess = self.sess.wrapping_add(1).max(1);
        self.cfg = cfg;
        if self.cfg.max_steps == 0 {
            self.cfg.max_steps = 40_000_000;
        }
        self.thr.clear();
        self.cur = 0;
        self.phase = Phase::Pre;
        self.quiescing = false;
        self.steps = 0;
        self.spin = 0;
        self.clock = 1_000_000_000_000;
        self.objs.clear();
        self.retsum = 0;
        self.files.clear();
        self.inos.clear();
        self.gens.clear();
        for f in self.fds.iter_mut() {
            *f = u32::MAX;
        }
        self.regions.clear();
        for s in self.slot_region[..self.next_slot].iter_mut() {
            *s = u16::MAX;
        }
        self.next_slot = 0;
        self.log.clear();
        self.pend.clear();
        self.races.clear();
        self.panics.clear();
        self.nfs = 0;
        self.fs_trace.clear();
        self.fs_names.clear();
        self.fault_hit = None;
        self.switches = 0;
        self.npoints = 0;
        self.leaked = 0;
        self.sync_count = 0;
        self.lockfds.clear();
        self.dirfds.clear();
        self.nsync = 0;
        // register pre-existing files in name order
        let mut names: Vec<String> = std::fs::read_dir(&self.cfg.dir)
            .map(|d| {
                d.filter_map(|e| e.ok())
                    .filter(|e| e.file_type().map(|t| t.is_file()).unwrap_or(false))
                    .map(|e| e.file_name().to_string_lossy().to_string())
                    .filter(|n| n != ".lock")
                    .collect()
            })
            .unwrap_or_default();
        names.sort();
        for n in names {
            use std::os::unix::fs::MetadataExt;
            if let Ok(m) = std::fs::metadata(format!("{}/{n}", self.cfg.dir)) {
                self.register_file((m.dev(), m.ino()), &n);
            }
        }
    }

    pub fn register_file(&mut self, ino: (u64, u64), name: &str) -> u32 {
        let nh = crate::hash_bytes(name.as_bytes());
        let g = self.gens.entry(nh).or_insert(0);
        let sid = mix(nh, *g as u64 + 77);
        *g += 1;
        let fid = self.files.len() as u32;
        self.files.push(FileInfo { ino, sid, name: name.to_string() });
        self.inos.insert(ino, fid);
        fid
    }

    #[inline]
    fn enabled(&self, t: usize) -> bool {
        match &self.thr[t].st {
            St::Run => true,
            St::Blk(b) => b.timed || unsafe { (b.pred)(b.arg) },
            St::Done => false,
        }
    }

    pub fn state_hash(&self) -> u64 {
        let mut s = 0u64;
        for (i, t) in self.thr.iter().enumerate() {
            s = s.wrapping_add(mix(i as u64 + 1, t.h));
        }
        s
    }

    /// Choose who runs next. `me` is the running thread; `can_continue` says whether it may go on;
    /// `yielding` makes leaving it free and non-default.
    fn choose(&mut self, me: usize, can_continue: bool, yielding: bool) -> Option<usize> {
        let mut list: [u8; 64] = [0; 64];
        let mut n = 0;
        if can_continue && !yielding {
            list[0] = me as u8;
            n = 1;
        }
        let nt = self.thr.len().min(255);
        // quiescing: prefer background threads over the session main thread
        for t in 0..nt {
            if t == me || (self.quiescing && t == 0) {
                continue;
            }
            if n < 64 && self.enabled(t) {
                list[n] = t as u8;
                n += 1;
            }
        }
        if self.quiescing && me != 0 && n < 64 && self.enabled(0) {
            list[n] = 0;
            n += 1;
        }
        if can_continue && yielding && n < 64 {
            list[n] = me as u8;
            n += 1;
        }
        if n == 0 {
            return None;
        }
        // only real threads of interest branch
        if n == 1 || self.phase != Phase::Par || self.ctl.is_none() {
            return Some(list[0] as usize);
        }
        let hash = self.state_hash();
        let ctl = self.ctl.as_mut().unwrap();
        let idx = ctl.trace.len();
        let cost = if can_continue && !yielding { 1u8 } else { 0 };
        let mut taken = 0u8;
        if idx < ctl.prefix.len() {
            taken = ctl.prefix[idx];
            if !ctl.replay && idx < ctl.prefix_hash.len() && ctl.prefix_hash[idx] != hash {
                ctl.diverged = Some(format!("state hash mismatch at choice {idx}"));
            }
            if taken as usize >= n {
                ctl.diverged = Some(format!("choice {idx}: alternative {taken} of {n} not available"));
                taken = 0;
            }
        } else if !ctl.branching {
            return Some(list[0] as usize);
        } else {
            let rem = ctl.bound.saturating_sub(ctl.used) as u8;
            let key = (hash, (me as u8) | if can_continue { 0 } else { 0x80 });
            match ctl.cache.get_mut(&key) {
                Some(r) if *r >= rem + 1 => {
                    ctl.cache_hits += 1;
                    ctl.branching = false;
                    return Some(list[0] as usize);
                }
                Some(r) => *r = rem + 1,
                None => {
                    ctl.cache.insert(key, rem + 1);
                }
            }
        }
        ctl.trace.push(Choice {
            hash,
            n: n as u8,
            taken,
            cost,
            used: ctl.used as u8,
            cur: me as u8,
        });
        if taken != 0 {
            ctl.used += cost as u32;
        }
        Some(list[taken as usize] as usize)
    }

    unsafe fn switch_to(&mut self, me: usize, next: usize) {
        self.cur = next;
        self.spin = 0;
        self.switches += 1;
        self.wake_prep(next);
        baton_give(next);
        baton_wait(me);
    }

    fn wake_prep(&mut self, t: usize) {
        if let St::Blk(_) = self.thr[t].st {
            self.thr[t].st = St::Run;
        }
    }

    /// A scheduling point of the running thread (it may be preempted here).
    pub fn decide(&mut self, yielding: bool) {
        let me = unsafe { TID as usize };
        self.npoints += 1;
        if let Some(n) = self.choose(me, true, yielding) {
            if n != me {
                self.flush_pend();
                unsafe { self.switch_to(me, n) }
            }
        }
    }

    #[inline]
    pub fn step(&mut self) {
        self.steps += 1;
        if self.steps > self.cfg.max_steps {
            fatal("no-progress", &format!("execution exceeded {} synchronisation steps without finishing", self.cfg.max_steps));
        }
    }

    /// Block the running thread until `pred(arg)`; returns false if it was resumed by timeout.
    pub fn block(&mut self, b: Blk) -> bool {
        let me = unsafe { TID as usize };
        self.step();
        loop {
            if unsafe { (b.pred)(b.arg) } {
                return true;
            }
            self.flush_pend();
            self.thr[me].st = St::Blk(b);
            let n = match self.choose_blocked(me, b.timed) {
                Some(n) => n,
                None => self.deadlock(),
            };
            if n == me {
                self.thr[me].st = St::Run;
            } else {
                unsafe { self.switch_to(me, n) }
            }
            self.thr[me].st = St::Run;
            if unsafe { (b.pred)(b.arg) } {
                return true;
            }
            if b.timed {
                return false;
            }
        }
    }

    fn choose_blocked(&mut self, me: usize, timed: bool) -> Option<usize> {
        self.choose(me, timed, timed)
    }

    pub fn describe_threads(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.thr.iter().enumerate() {
            let d = match &t.st {
                St::Run => "runnable".to_string(),
                St::Blk(b) => format!("blocked({})", b.what),
                St::Done => "done".into(),
            };
            s += &format!("T{i}:{d} ");
        }
        s
    }

    pub fn deadlock(&mut self) -> ! {
        let d = self.describe_threads();
        fatal("deadlock", &format!("no thread can run: {d}"))
    }

    // ---- object events -------------------------------------------------------------------
    #[inline]
    pub fn event(&mut self, obj: u64, acc: Acc) {
        if !self.cfg.track {
            return;
        }
        let me = unsafe { TID as usize };
        let commuting = acc == Acc::Add
            && !self.ctl.as_ref().map_or(false, |c| c.points.contains(&obj));
        let o = self.objs.entry(obj).or_default();
        let t = &mut self.thr[me];
        match acc {
            Acc::R => {
                t.h = mix(mix(t.h, obj), o.wh ^ 0x11);
                o.rs = o.rs.wrapping_add(t.h);
            }
            Acc::Add if commuting => {
                t.h = mix(mix(t.h, obj), 0x22);
                o.rs = o.rs.wrapping_add(t.h);
            }
            _ => {
                t.h = mix(mix(t.h, obj), mix(o.wh, o.rs));
                o.wh = t.h;
                o.rs = 0;
            }
        }
    }

    /// Scheduling point + conflict bookkeeping before an access; the caller performs the access
    /// right after and then calls `event`.
    #[inline]
    pub fn point(&mut self, obj: u64, acc: Acc) {
        self.step();
        if !self.cfg.track || self.phase != Phase::Par {
            return;
        }
        let me = unsafe { TID as usize };
        let o = self.objs.entry(obj).or_default();
        let bit = 1u32 << (me & 31);
        match acc {
            Acc::R => o.rm |= bit,
            Acc::W => o.wm |= bit,
            Acc::Add => o.am |= bit,
        }
        let sh = (me & 7) * 8;
        let seen = (o.vis >> sh) & 0xff;
        if seen < 0xff {
            o.vis += 1 << sh;
        }
        if let Some(c) = &self.ctl {
            if (c.visits == 0 || seen < c.visits as u64) && c.points.contains(&obj) {
                self.decide(false);
            }
        }
    }

    /// Objects on which two threads conflicted in the parallel phase.
    pub fn conflicts(&self, out: &mut Set<u64>) -> bool {
        let mut grew = false;
        for (k, o) in &self.objs {
            let all = o.rm | o.wm | o.am;
            if all.count_ones() < 2 {
                continue;
            }
            let c = o.wm != 0 || (o.am != 0 && o.rm != 0);
            if c && out.insert(*k) {
                grew = true;
            }
        }
        grew
    }

    #[inline]
    pub fn acquire(&mut self, obj: u64) {
        if self.cfg.race {
            let me = unsafe { TID as usize };
            let v = self.objs.entry(obj).or_default().vc;
            vjoin(&mut self.thr[me].vc, &v);
        }
    }
    #[inline]
    pub fn release(&mut self, obj: u64) {
        if self.cfg.race {
            let me = unsafe { TID as usize };
            let v = self.thr[me].vc;
            vjoin(&mut self.objs.entry(obj).or_default().vc, &v);
            if me < NV {
                self.thr[me].vc[me] += 1;
            }
        }
    }

    // ---- log -----------------------------------------------------------------------------
    #[inline]
    pub fn flush_pend(&mut self) {
        if self.pend.is_empty() {
            return;
        }
        let p = std::mem::take(&mut self.pend);
        for (a, n) in &p {
            self.log_mem(*a, *n);
        }
        self.pend = p;
        self.pend.clear();
    }
    pub fn log_mem(&mut self, a: usize, n: usize) {
        if let Some(r) = self.region_of(a) {
            let data = unsafe { std::slice::from_raw_parts(a as *const u8, n) }.to_vec();
            let off = r.foff + (a - r.start) as u64;
            self.log.push(Ev::Write { fid: r.fid, off, data });
        }
    }
    /// A write to a file, which a sync of that file by another thread does or doesn't cover.
    #[inline]
    pub fn dirty(&mut self, fid: u32) {
        if self.cfg.durable {
            let o = mix(self.files[fid as usize].sid, 0x57ac);
            self.touch(o);
            self.event(o, Acc::R);
        }
    }
    #[inline]
    pub fn dirty_mem(&mut self, a: usize) {
        if self.cfg.durable {
            if let Some(r) = self.region_of(a) {
                self.dirty(r.fid);
            }
        }
    }
    /// conflict bookkeeping without a scheduling point
    fn touch(&mut self, obj: u64) {
        if self.cfg.track && self.phase == Phase::Par {
            let me = unsafe { TID as usize };
            self.objs.entry(obj).or_default().rm |= 1u32 << (me & 31);
        }
    }
    pub fn log_ev(&mut self, e: Ev) {
        if self.cfg.log {
            self.flush_pend();
            self.log.push(e);
        }
    }
    #[inline]
    pub fn region_of(&self, a: usize) -> Option<Region> {
        let s = (a - WIN) / SLOT;
        let r = self.slot_region[s];
        if r == u16::MAX {
            return None;
        }
        let r = self.regions[r as usize];
        if r.live && a >= r.start && a < r.start + r.len {
            Some(r)
        } else {
            None
        }
    }
    /// Stable name of a shared memory word.
    pub fn mem_obj(&self, a: usize) -> u64 {
        if a.wrapping_sub(WIN) < WINLEN {
            if let Some(r) = self.region_of(a) {
                return mix(self.files[r.fid as usize].sid, r.foff + (a - r.start) as u64);
            }
        }
        mix(0xabcd, a as u64)
    }

    // ---- threads -------------------------------------------------------------------------
    pub fn add_thread(&mut self) -> usize {
        let id = self.thr.len();
        if id >= arena::MAX_THREADS {
            die("too many threads in one session");
        }
        let mut t = new_thr();
        if managed() {
            let me = unsafe { TID as usize };
            t.vc = self.thr[me].vc;
            if me < NV {
                self.thr[me].vc[me] += 1;
            }
            let ph = self.thr[me].h;
            t.h = mix(ph, 0x7431);
            self.thr[me].h = mix(ph, 0x7432);
        }
        if id < NV {
            t.vc[id] += 1;
        }
        self.thr.push(t);
        id
    }

    pub fn finish_thread(&mut self) {
        let me = unsafe { TID as usize };
        self.flush_pend();
        self.thr[me].st = St::Done;
        match self.choose(me, false, false) {
            Some(n) => {
                self.cur = n;
                self.spin = 0;
                self.wake_prep(n);
                unsafe { baton_give(n) }
            }
            None => {
                if self.thr.iter().any(|t| !matches!(t.st, St::Done)) {
                    self.deadlock()
                }
            }
        }
    }
}

pub struct Start {
    pub f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    pub arg: *mut libc::c_void,
    pub tid: usize,
    pub user: bool,
}

pub extern "C" fn trampoline(arg: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b = Box::from_raw(arg as *mut Start);
        TID = b.tid as u32;
        baton_wait(b.tid);
        USER = b.user;
        let r = (b.f)(b.arg);
        USER = false;
        drop(b);
        rt().finish_thread();
        TID = u32::MAX;
        r
    }
}

unsafe fn pred_done(arg: *const ()) -> bool {
    matches!(rt().thr[arg as usize].st, St::Done)
}

pub fn join_thread(tid: usize) {
    let _h = Hook::enter();
    let r = rt();
    r.block(Blk { pred: pred_done, arg: tid as *const (), timed: false, what: "join" });
    let v = r.thr[tid].vc;
    let h = r.thr[tid].h;
    let me = unsafe { TID as usize };
    vjoin(&mut r.thr[me].vc, &v);
    r.thr[me].h = mix(r.thr[me].h, h);
}

/// Let every other thread run until it blocks or finishes (main session thread only).
pub fn quiesce() {
    let _h = Hook::enter();
    let r = rt();
    let me = unsafe { TID as usize };
    loop {
        let mut any = None;
        for t in 0..r.thr.len() {
            if t != me && r.enabled(t) {
                any = Some(t);
                break;
            }
        }
        let Some(n) = any else { break };
        r.flush_pend();
        r.quiescing = true;
        unsafe { r.switch_to(me, n) };
        r.quiescing = false;
    }
}

pub fn yield_now() {
    if !managed() {
        return;
    }
    let _h = Hook::enter();
    rt().step();
    rt().decide(true);
}

pub fn mark(kind: u32, idx: u32) {
    if managed() {
        rt().log_ev(Ev::Mark(kind, idx));
    }
}

/// Operation boundaries of the parallel phase (real-time order for linearizability).
pub fn op_call() {
    let r = rt();
    if r.cfg.track {
        let me = unsafe { TID as usize };
        if r.phase == Phase::Par && r.ctl.is_some() {
            r.decide(false);
        }
        r.thr[me].h = mix(r.thr[me].h, r.retsum ^ 0xca11);
    }
}
pub fn op_ret() {
    let r = rt();
    if r.cfg.track {
        let me = unsafe { TID as usize };
        r.thr[me].h = mix(r.thr[me].h, 0x4e7);
        r.retsum = r.retsum.wrapping_add(r.thr[me].h);
    }
}

/// What the code under test holds at the moment.
#[derive(Clone, Debug, Default)]
pub struct Held {
    /// file ids of open files
    pub fds: Vec<u32>,
    /// file ids of live mappings
    pub maps: Vec<u32>,
    /// threads it started that have not ended
    pub threads: usize,
    /// bytes of memory
    pub mem: i64,
}
pub fn held() -> Held {
    let r = rt();
    Held {
        fds: r.fds.iter().copied().filter(|f| *f != u32::MAX).collect(),
        maps: r.regions.iter().filter(|g| g.live).map(|g| g.fid).collect(),
        threads: r.thr.iter().skip(1).filter(|t| !matches!(t.st, St::Done)).count(),
        mem: unsafe { arena::LIVE },
    }
}
/// The id under which a file is known.
pub fn fid_of_path(p: &str) -> Option<u32> {
    use std::os::unix::fs::MetadataExt;
    let m = std::fs::metadata(p).ok()?;
    rt().inos.get(&(m.dev(), m.ino())).copied()
}

pub struct Out {
    pub panics: Vec<String>,
    pub races: Vec<String>,
    pub log: Vec<Ev>,
    pub nfs: u64,
    pub fault_hit: Option<String>,
    pub leaked: usize,
    pub switches: u64,
    pub npoints: u64,
    pub steps: u64,
    pub fs_names: Vec<String>,
}

/// Run `body` as thread 0 of a fresh session on its own OS thread.
pub fn session<R: Send>(cfg: Cfg, body: impl FnOnce() -> R + Send) -> (R, Out) {
    init();
    assert!(!managed());
    let r = rt();
    r.begin(cfg);
    let mut res = None;
    std::thread::scope(|s| {
        let res = &mut res;
        let h = s.spawn(move || unsafe {
            let r = rt();
            let id = r.add_thread();
            debug_assert_eq!(id, 0);
            TID = 0;
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
            USER = false;
            r.phase = Phase::Post;
            // drain the others
            quiesce();
            r.flush_pend();
            r.leaked = r.thr.iter().skip(1).filter(|t| !matches!(t.st, St::Done)).count();
            TID = u32::MAX;
            *res = Some(x);
        });
        let _ = h.join();
    });
    unsafe {
        for i in 1..r.thr.len() {
            if r.thr[i].has_real && !r.thr[i].reaped && matches!(r.thr[i].st, St::Done) {
                crate::sys::real_join(r.thr[i].real);
                r.thr[i].reaped = true;
            }
        }
        if r.leaked == 0 {
            for reg in r.regions.iter_mut() {
                if reg.live {
                    reg.live = false;
                    crate::sys::unmap_window(reg.start, reg.len);
                }
            }
            for fd in 0..r.fds.len() {
                if r.fds[fd] != u32::MAX {
                    crate::sys::raw6(libc::SYS_close, fd, 0, 0, 0, 0, 0);
                    r.fds[fd] = u32::MAX;
                }
            }
            arena::reset(r.thr.len());
        }
    }
    r.active = false;
    let out = Out {
        panics: std::mem::take(&mut r.panics),
        races: std::mem::take(&mut r.races),
        log: std::mem::take(&mut r.log),
        nfs: r.nfs,
        fault_hit: r.fault_hit.take(),
        leaked: r.leaked,
        switches: r.switches,
        npoints: r.npoints,
        steps: r.steps,
        fs_names: std::mem::take(&mut r.fs_names),
    };
    match res.expect("session body did not finish") {
        Ok(v) => (v, out),
        Err(e) => {
            let m = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            fatal("panic", &format!("session body panicked: {m}; panics={:?}", out.panics))
        }
    }
}

/// Spawn a managed client thread (harness side). Join with `std::thread::JoinHandle::join`.
pub fn par_begin() {
    rt().thr.iter_mut().for_each(|t| t.nfs = 0);
    rt().phase = Phase::Par;
}
pub fn par_end() {
    rt().phase = Phase::Post;
}
