//! Preemption-bounded depth-first exploration of all schedules of one program, with
//! happens-before state caching and dynamically discovered scheduling points (restarted to a
//! fixpoint: exploration is complete for the final set of conflicting objects).
use crate::rt::*;
use crate::Set;

#[derive(Default, Clone, Debug)]
pub struct XStats {
    pub execs: u64,
    pub choices: u64,
    pub states: u64,
    pub cache_hits: u64,
    pub restarts: u64,
    pub points: u64,
    pub complete: bool,
    pub steps: u64,
}

pub struct Found<V> {
    pub v: V,
    pub choices: Vec<u8>,
    pub points: Vec<u64>,
}

pub fn explore<V>(
    bound: u32,
    visits: u32,
    max_execs: u64,
    deadline: Option<std::time::Instant>,
    mut run: impl FnMut() -> Option<V>,
) -> (XStats, Option<Found<V>>) {
    let mut st = XStats::default();
    let mut points: Set<u64> = Set::default();
    init();
    'restart: loop {
        let mut prefix: Vec<u8> = vec![];
        let mut prefix_hash: Vec<u64> = vec![];
        let mut cache = Default::default();
        let mut hits = 0;
        loop {
            if st.execs >= max_execs || deadline.map_or(false, |d| std::time::Instant::now() > d) {
                st.points = points.len() as u64;
                st.cache_hits += hits;
                return (st, None);
            }
            rt().ctl = Some(Ctl {
                prefix: std::mem::take(&mut prefix),
                prefix_hash: std::mem::take(&mut prefix_hash),
                trace: vec![],
                used: 0,
                bound,
                branching: true,
                points: std::mem::take(&mut points),
                cache: std::mem::take(&mut cache),
                cache_hits: 0,
                diverged: None,
                replay: false,
                visits,
            });
            let v = run();
            let ctl = rt().ctl.take().unwrap();
            points = ctl.points;
            cache = ctl.cache;
            st.execs += 1;
            st.steps += rt().steps;
            hits += ctl.cache_hits;
            if let Some(d) = ctl.diverged {
                fatal("nondeterminism", &d);
            }
            if let Some(v) = v {
                let f = Found {
                    v,
                    choices: ctl.trace.iter().map(|c| c.taken).collect(),
                    points: points.iter().copied().collect(),
                };
                st.points = points.len() as u64;
                st.states += cache.len() as u64;
                return (st, Some(f));
            }
            if rt().conflicts(&mut points) {
                st.restarts += 1;
                continue 'restart;
            }
            let tr = ctl.trace;
            st.choices = st.choices.max(tr.len() as u64);
            let mut i = tr.len();
            let mut found = false;
            while i > 0 {
                i -= 1;
                let c = &tr[i];
                if c.taken + 1 < c.n && c.used as u32 + c.cost as u32 <= bound {
                    prefix = tr[..i].iter().map(|c| c.taken).collect();
                    prefix.push(c.taken + 1);
                    prefix_hash = tr[..=i].iter().map(|c| c.hash).collect();
                    found = true;
                    break;
                }
            }
            if !found {
                st.complete = true;
                st.points = points.len() as u64;
                st.states += cache.len() as u64;
                st.cache_hits += hits;
                return (st, None);
            }
        }
    }
}

/// Re-execute one recorded schedule.
pub fn replay<V>(choices: &[u8], points: &[u64], bound: u32, visits: u32, run: impl FnOnce() -> Option<V>) -> (Option<V>, Option<String>) {
    init();
    rt().ctl = Some(Ctl {
        prefix: choices.to_vec(),
        bound,
        branching: false,
        points: points.iter().copied().collect(),
        replay: true,
        visits,
        ..Default::default()
    });
    let v = run();
    let ctl = rt().ctl.take().unwrap();
    (v, ctl.diverged)
}
