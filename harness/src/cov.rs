//! Coverage feedback.  The guided leg builds the monitor, and with it the code of cam-geom that it instantiates, with
//! LLVM's edge instrumentation; these are its callbacks, and the choice of what to try next.
//!
//! A case is a sequence of random draws.  Where a case takes a branch that few cases take, its draws are kept, and
//! varied: so conditions that are rare together are met although no generator aims at them.
use crate::rng::{hash, Rng};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::*};
use std::sync::{Arc, Mutex};

struct Local {
    stamp: *mut u32,
    list: *mut u32,
    len: usize,
    now: u32,
}
thread_local! {
    static LOCAL: Cell<*mut Local> = const { Cell::new(std::ptr::null_mut()) };
}
static EDGES: AtomicU32 = AtomicU32::new(0);

/// # Safety
/// Called by the instrumentation.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = EDGES.fetch_add(1, Relaxed) + 1;
        p = p.add(1);
    }
}
static PCS: Mutex<Vec<usize>> = Mutex::new(Vec::new());
extern "C" {
    static __executable_start: u8;
}
/// # Safety
/// Called by the instrumentation.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const [usize; 2], stop: *const [usize; 2]) {
    let mut v = PCS.lock().unwrap();
    if !v.is_empty() {
        return;
    }
    let base = std::ptr::addr_of!(__executable_start) as usize;
    let mut p = start;
    let mut function = 0;
    while p < stop {
        if (*p)[1] & 1 == 1 {
            function = (*p)[0] - base;
        }
        v.push(function);
        p = p.add(1);
    }
}
/// Where the function begins that a branch belongs to, in the executable.
pub fn places() -> Vec<usize> {
    PCS.lock().unwrap().clone()
}

/// # Safety
/// Called by the instrumentation.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let t = LOCAL.get();
    if t.is_null() {
        return;
    }
    let i = *g as usize;
    let s = (*t).stamp.add(i);
    if *s != (*t).now {
        *s = (*t).now;
        *(*t).list.add((*t).len) = i as u32;
        (*t).len += 1;
    }
}

pub struct Kept {
    pub family: usize,
    pub tape: Vec<u64>,
}
/// What all workers know, merged after each round in the order of the workers: runs do not depend on timing.
pub struct Shared {
    focus: Vec<bool>,
    /// cases that took the branch, and times it was chosen
    hits: Vec<u32>,
    picks: Vec<u32>,
    holder: Vec<Option<Arc<Kept>>>,
    pub pool: Arc<Vec<(u32, Arc<Kept>)>>,
    pub cases: u64,
    pub varied: u64,
    news: Vec<Option<News>>,
}
/// What one worker learnt in a round.
struct News {
    hits: Vec<u32>,
    picks: Vec<u32>,
    held: Vec<(u32, Arc<Kept>)>,
    cases: u64,
    varied: u64,
}
impl Shared {
    /// None if nothing is instrumented.
    pub fn new(focus: &[usize], workers: usize) -> Option<Shared> {
        let n = EDGES.load(Relaxed) as usize + 1;
        if n < 2 {
            return None;
        }
        Some(Shared {
            focus: (0..n).map(|i| focus.is_empty() || focus.binary_search(&i).is_ok()).collect(),
            hits: vec![0; n],
            picks: vec![0; n],
            holder: vec![None; n],
            pool: Default::default(),
            cases: 0,
            varied: 0,
            news: (0..workers).map(|_| None).collect(),
        })
    }
    pub fn taken(&self) -> u64 {
        self.hits.iter().filter(|n| **n > 0).count() as u64
    }
    pub fn branches(&self) -> u64 {
        self.focus.iter().skip(1).filter(|f| **f).count() as u64
    }
    /// The end of a round.
    pub fn merge(&mut self) {
        let all: Vec<News> = self.news.iter_mut().filter_map(|n| n.take()).collect();
        for n in all {
            for e in 0..self.hits.len() {
                self.hits[e] += n.hits[e];
                self.picks[e] += n.picks[e];
            }
            for (e, k) in n.held {
                self.holder[e as usize] = Some(k);
            }
            self.cases += n.cases;
            self.varied += n.varied;
        }
        // the branches least often taken and chosen; one of those that are taken together
        let rare = self.rare();
        let mut p: Vec<(u32, usize, u32)> = Vec::new();
        for e in 1..self.hits.len() {
            if let (true, Some(h)) = (self.hits[e] <= rare, &self.holder[e]) {
                p.push((self.hits[e] + self.picks[e], Arc::as_ptr(h) as usize, e as u32));
            }
        }
        p.sort_by_key(|x| (x.0, x.2));
        let mut pool: Vec<(u32, Arc<Kept>)> = Vec::new();
        let mut seen = std::collections::HashSet::new();
        for (_, h, e) in p {
            if seen.insert((h, self.hits[e as usize])) {
                pool.push((e, self.holder[e as usize].clone().unwrap()));
                if pool.len() == 64 {
                    break;
                }
            }
        }
        self.pool = Arc::new(pool);
    }
    fn rare(&self) -> u32 {
        (self.cases / 1000) as u32 + 1
    }
}

/// One worker.
pub struct Guide {
    _stamp: Vec<u32>,
    list: Vec<u32>,
    local: Box<Local>,
    g: Rng,
    focus: Vec<bool>,
    base: Vec<u32>,
    rare: u32,
    pool: Arc<Vec<(u32, Arc<Kept>)>>,
    news: News,
}
impl Guide {
    pub fn new(seed: u64, s: &Shared) -> Guide {
        let n = s.hits.len();
        let (mut stamp, mut list) = (vec![0u32; n], vec![0u32; n]);
        let local = Box::new(Local { stamp: stamp.as_mut_ptr(), list: list.as_mut_ptr(), len: 0, now: 0 });
        Guide {
            _stamp: stamp,
            list,
            local,
            g: Rng::new(hash(&[seed, 0x6761])),
            focus: s.focus.clone(),
            base: vec![0; n],
            rare: 1,
            pool: Default::default(),
            news: News { hits: vec![0; n], picks: vec![0; n], held: Vec::new(), cases: 0, varied: 0 },
        }
    }
    /// Begins a round.
    pub fn learn(&mut self, s: &Shared) {
        self.base.copy_from_slice(&s.hits);
        self.rare = s.rare();
        self.pool = s.pool.clone();
    }
    /// Ends it.
    pub fn tell(&mut self, s: &mut Shared, worker: usize) {
        let n = s.hits.len();
        let new = News { hits: vec![0; n], picks: vec![0; n], held: Vec::new(), cases: 0, varied: 0 };
        s.news[worker] = Some(std::mem::replace(&mut self.news, new));
    }
    /// Draws to vary, of a case of this family; or None for a fresh case.
    pub fn choose(&mut self) -> Option<(usize, Vec<u64>)> {
        if self.pool.is_empty() || self.g.one_in(5) {
            return None;
        }
        let (e, k) = &self.pool[self.g.below(self.pool.len())];
        self.news.picks[*e as usize] += 1;
        self.news.varied += 1;
        Some((k.family, vary(&mut self.g, &k.tape)))
    }
    pub fn begin(&mut self) {
        self.local.now += 1;
        self.local.len = 0;
        LOCAL.set(&mut *self.local);
    }
    /// The case is over: keeps its draws if it took a rare branch.
    pub fn end(&mut self, family: usize, tape: Vec<u64>) {
        LOCAL.set(std::ptr::null_mut());
        self.news.cases += 1;
        let mut kept: Option<Arc<Kept>> = None;
        let luck = self.g.unit();
        for k in 0..self.local.len {
            let e = self.list[k] as usize;
            if !self.focus[e] {
                continue;
            }
            self.news.hits[e] += 1;
            let n = self.base[e] + self.news.hits[e];
            if n == 1 || (n <= self.rare && luck * (n.min(32) as f64) < 1.0) {
                let c = kept.get_or_insert_with(|| Arc::new(Kept { family, tape: tape.clone() }));
                self.news.held.push((e as u32, c.clone()));
            }
        }
    }
}

/// Other draws, most of them the same.
fn vary(g: &mut Rng, tape: &[u64]) -> Vec<u64> {
    let mut t = tape.to_vec();
    let n = t.len();
    if n == 0 {
        return t;
    }
    let times = if g.one_in(3) { 1 + g.below(4) } else { 1 };
    for _ in 0..times {
        // cases begin with what they are about
        let at = if g.one_in(2) { g.below(n) } else { g.below(n.min(64)) };
        let at = at.min(t.len() - 1);
        match g.below(12) {
            0..=2 => t[at] = g.u64(),
            // a number of the code, see Rng::word
            3 | 4 => t[at] = g.u64() & !31,
            5 | 6 => {
                let m = (at + 1 + g.below(12)).min(t.len());
                for x in &mut t[at..m] {
                    *x = g.u64();
                }
            }
            7 => t.truncate(at.max(1)),
            8 => {
                for x in &mut t[..at] {
                    *x = g.u64();
                }
            }
            // the same again, or nearly
            9 => t[at] = tape[g.below(n)],
            10 => t[at] = t[at].wrapping_add((g.u64() | 1) >> g.below(64)),
            _ => {
                let from = g.below(n);
                let m = 1 + g.below(12);
                for k in 0..m {
                    if at + k < t.len() && from + k < n {
                        t[at + k] = tape[from + k];
                    }
                }
            }
        }
    }
    t
}
