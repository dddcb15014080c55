//! Verdicts, counts, evidence, replays; the worker threads and the watchdog.
use crate::rng::{hash, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// CPU seconds one case may use: the operations of a case take microseconds to milliseconds.
pub const HANG_CPU_S: u64 = 40;

#[derive(Clone)]
pub struct Violation {
    pub case: u64,
    pub family: &'static str,
    pub check: String,
    pub detail: String,
    pub draws: Option<Draws>,
}
/// What a guided case is a function of.
#[derive(Clone, Default)]
pub struct Draws {
    pub family: usize,
    pub seed: u64,
    pub tape: Vec<u64>,
}

/// What one worker saw.
#[derive(Default)]
pub struct Rec {
    pub case: u64,
    pub family: &'static str,
    pub evaluations: u64,
    pub nontrivial: u64,
    seen: HashSet<u64>,
    /// name -> (held, violated, inconclusive, largest error/bound)
    checks: BTreeMap<&'static str, (u64, u64, u64, f64)>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    judged_this_case: u64,
    draws: Option<Draws>,
    pub counters: BTreeMap<&'static str, u64>,
}

impl Rec {
    /// Declares the input of a case, once or more per case: `key` identifies it, `nontrivial` by the rule of the property.
    pub fn input(&mut self, key: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.nontrivial += 1;
            if self.seen.len() < 3_000_000 {
                self.seen.insert(key);
            }
        }
    }
    pub fn class(&mut self, c: &str) {
        if let Some(n) = self.classes.get_mut(c) {
            *n += 1;
        } else {
            self.classes.insert(c.to_string(), 1);
        }
    }
    pub fn count(&mut self, c: &'static str, n: u64) {
        *self.counters.entry(c).or_default() += n;
    }
    /// One observation: the error must not exceed the bound (a NaN error does).
    pub fn check(&mut self, name: &'static str, err: f64, tol: f64, detail: impl FnOnce() -> String) -> bool {
        let e = self.checks.entry(name).or_default();
        self.judged_this_case += 1;
        if err <= tol {
            e.0 += 1;
            let r = if tol > 0.0 { err / tol } else { 0.0 };
            if r > e.3 {
                e.3 = r;
            }
            true
        } else {
            e.1 += 1;
            let d = format!("{name}: error {err:e} exceeds bound {tol:e}; {}", detail());
            self.fail(name, d);
            false
        }
    }
    /// One observation that either holds or does not.
    pub fn ensure(&mut self, name: &'static str, ok: bool, detail: impl FnOnce() -> String) -> bool {
        let e = self.checks.entry(name).or_default();
        self.judged_this_case += 1;
        if ok {
            e.0 += 1;
        } else {
            e.1 += 1;
            let d = format!("{name}: {}", detail());
            self.fail(name, d);
        }
        ok
    }
    pub fn inconclusive(&mut self, name: &'static str) {
        self.checks.entry(name).or_default().2 += 1;
    }
    pub fn fail(&mut self, check: &str, detail: String) {
        if self.violations.len() < 50 {
            let draws = self.draws.clone();
            self.violations.push(Violation { case: self.case, family: self.family, check: check.to_string(), detail, draws });
        }
        STOP.fetch_add(1, Relaxed);
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }
    /// Keeps the first few samples per family.
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 || (VERBOSE.load(Relaxed) && self.samples.len() < 1000) {
            let s = format!("[{} case {}] {}", self.family, self.case, s());
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: Rec) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.seen.extend(o.seen);
        for (k, v) in o.checks {
            let e = self.checks.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
            e.2 += v.2;
            e.3 = e.3.max(v.3);
        }
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.violations.extend(o.violations);
    }
}

static STOP: AtomicU64 = AtomicU64::new(0);
static VERBOSE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    /// Set while a monitor expects a panic.
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f`, catching a panic: Err((location, message)).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}
fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// One kind of case of a property.
pub struct Family {
    pub name: &'static str,
    /// Relative number of cases.
    pub weight: u32,
    pub run: fn(&mut Rng, &mut Rec),
}

pub struct Spec {
    pub id: &'static str,
    pub families: Vec<Family>,
    /// Number of cases in the quick tier.
    pub quick: u64,
    pub rule: &'static str,
    /// Least number of distinct non-trivial inputs for a verdict.
    pub min_distinct: u64,
    pub assumptions: &'static [&'static str],
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<u64>,
    pub out: Option<String>,
    pub replay_dir: String,
    pub threads: usize,
    pub cases: Option<u64>,
    pub first: u64,
    pub secs: Option<u64>,
    pub journal: Option<String>,
    pub leg: String,
    /// Guided by coverage.
    pub guided: bool,
    /// Numbers of the code.
    pub words: Vec<f64>,
    /// The branches that guide (all if empty).
    pub focus: Vec<usize>,
    pub draws: Option<Draws>,
}
impl Opts {
    pub fn parse() -> Opts {
        let env = |k: &str| std::env::var(k).ok();
        let mut o = Opts {
            seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
            only: None,
            out: None,
            replay_dir: "/verif/replays".into(),
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
            cases: None,
            first: 0,
            secs: None,
            journal: None,
            leg: "main".into(),
            guided: false,
            words: Vec::new(),
            focus: Vec::new(),
            draws: None,
        };
        let mut a = std::env::args().skip(1);
        while let Some(k) = a.next() {
            let mut val = || a.next().unwrap_or_else(|| die("missing value"));
            match k.as_str() {
                "--seed" => o.seed = val().parse().unwrap_or_else(|_| die("bad seed")),
                "--case" => o.only = val().parse().ok(),
                "--out" => o.out = Some(val()),
                "--replay-dir" => o.replay_dir = val(),
                "--threads" => o.threads = val().parse().unwrap_or_else(|_| die("bad threads")),
                "--cases" => o.cases = val().parse().ok(),
                "--first" => o.first = val().parse().unwrap_or_else(|_| die("bad first case")),
                "--secs" => o.secs = val().parse().ok(),
                "--journal" => o.journal = Some(val()),
                "--leg" => o.leg = val(),
                "--guided" => o.guided = true,
                "--words" => {
                    let w = val();
                    o.words = w.split(',').filter_map(|x| x.trim().parse().ok()).collect();
                }
                "--focus" => {
                    let s = std::fs::read_to_string(val()).unwrap_or_else(|_| die("cannot read the branches"));
                    o.focus = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                    o.focus.sort();
                }
                #[cfg(feature = "guided")]
                "--places" => {
                    for p in crate::cov::places() {
                        println!("{p:#x}");
                    }
                    std::process::exit(0)
                }
                "--tier" => o.thorough = val() == "thorough",
                "--replay" => {
                    let s = std::fs::read_to_string(val()).unwrap_or_else(|_| die("cannot read replay"));
                    let num = |k: &str| -> Option<u64> {
                        let i = s.find(&format!("\"{k}\":"))? + k.len() + 3;
                        let t: String = s[i..].chars().skip_while(|c| *c == ' ').take_while(|c| c.is_ascii_digit()).collect();
                        t.parse().ok()
                    };
                    o.seed = num("seed").unwrap_or_else(|| die("no seed in replay"));
                    o.only = num("case");
                    let list = |k: &str| -> Option<Vec<&str>> {
                        let k = format!("\"{k}\": [");
                        let t = &s[s.find(&k)? + k.len()..];
                        Some(t[..t.find(']')?].split(',').map(|x| x.trim()).collect())
                    };
                    o.words = list("words").map_or(Vec::new(), |w| w.iter().filter_map(|x| x.parse().ok()).collect());
                    if let (Some(k), Some(seed), Some(t)) = (num("draws_family"), num("draws_seed"), list("draws")) {
                        o.draws = Some(Draws { family: k as usize, seed, tape: t.iter().filter_map(|x| x.parse().ok()).collect() });
                    }
                }
                _ => die(&format!("unknown option {k}")),
            }
        }
        o
    }
}
pub fn die(s: &str) -> ! {
    eprintln!("ERROR: {s}");
    std::process::exit(2)
}

pub fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut i = n;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}...", &s[..i])
    }
}

fn id_num(id: &str) -> u64 {
    id.bytes().fold(7, |h, b| hash(&[h, b as u64]))
}

struct Slot {
    tid: AtomicU64,
    /// case + 1, or 0 when idle
    case: AtomicU64,
    draws: Mutex<Draws>,
}

/// Runs the monitors of one property and exits with the verdict.
pub fn main(spec: Spec) -> ! {
    let o = Opts::parse();
    std::process::exit(run(spec, o))
}

pub fn run(spec: Spec, o: Opts) -> i32 {
    install_hook();
    crate::rng::set_words(&o.words);
    let t0 = Instant::now();
    let total: u64 = match (o.cases, o.thorough) {
        (Some(n), _) => o.first + n,
        (None, false) if o.guided => spec.quick / 6,
        (None, false) => spec.quick,
        (None, true) => u64::MAX,
    };
    // The quick tier is a fixed number of cases; the time limit is for very slow machines only.
    let limit = Duration::from_secs(o.secs.unwrap_or(if o.thorough { 420 } else { 300 }));
    let wheel: Vec<usize> = spec.families.iter().enumerate().flat_map(|(i, f)| std::iter::repeat(i).take(f.weight as usize)).collect();
    // spread the families evenly
    let wheel: Vec<usize> = {
        let mut w = wheel;
        Rng::new(1).shuffle(&mut w);
        w
    };
    let idn = id_num(spec.id);
    let run_on = |i: u64, family: usize, g: &mut Rng, rec: &mut Rec| {
        let f = &spec.families[family];
        rec.case = i;
        rec.family = f.name;
        rec.judged_this_case = 0;
        // families that do not name a type use fixed units
        if !f.name.ends_with(" f64") && !f.name.ends_with(" wide") {
            g.least = 1e-8;
        }
        if f.name.ends_with(" f32") {
            g.units(5.0, 3.0);
        } else if f.name.ends_with(" f64") || f.name.ends_with(" wide") {
            g.units(25.0, 15.0);
        }
        if g.len != 1.0 {
            rec.class("unusual unit of length");
        }
        if g.pix != 1.0 {
            rec.class("unusual unit of pixels");
        }
        if let Err((loc, msg)) = guard(|| (f.run)(g, rec)) {
            if loc.starts_with("src/") {
                die(&format!("harness panicked at {loc}: {msg} (case {i}, family {})", f.name));
            }
            rec.count("panics", 1);
            rec.fail("no panic", format!("panic at {loc}: {}", cut(&msg, 600)));
        }
        if rec.judged_this_case > 0 {
            rec.count("cases with a verdict", 1);
        }
    };
    let family_of = |i: u64| wheel[(i % wheel.len() as u64) as usize];
    let run_case = |i: u64, rec: &mut Rec| run_on(i, family_of(i), &mut Rng::new(hash(&[o.seed, idn, i])), rec);
    let run_draws = |i: u64, d: &Draws, rec: &mut Rec| -> Vec<u64> {
        let mut g = Rng::with_tape(d.seed, d.tape.clone());
        rec.draws = Some(d.clone());
        run_on(i, d.family, &mut g, rec);
        g.tape
    };

    let mut all = Rec::default();
    if let Some(i) = o.only {
        VERBOSE.store(true, Relaxed);
        let mut rec = Rec::default();
        match &o.draws {
            Some(d) if d.family < spec.families.len() => {
                run_draws(i, d, &mut rec);
            }
            _ => run_case(i, &mut rec),
        }
        for s in &rec.samples {
            println!("{s}");
        }
        all.merge(rec);
    } else {
        let next = AtomicU64::new(o.first);
        let done = AtomicUsize::new(0);
        let slots: Vec<Slot> = (0..o.threads).map(|_| Slot { tid: AtomicU64::new(0), case: AtomicU64::new(0), draws: Default::default() }).collect();
        let recs = Mutex::new(Vec::new());
        #[cfg(feature = "guided")]
        let shared = Mutex::new(crate::cov::Shared::new(&o.focus, o.threads).unwrap_or_else(|| die("not instrumented")));
        #[cfg(feature = "guided")]
        let (barrier, over) = (std::sync::Barrier::new(o.threads), AtomicBool::new(false));
        #[cfg(feature = "guided")]
        const ROUND: usize = 512;
        std::thread::scope(|s| {
            for (worker, slot) in slots.iter().enumerate() {
                let (next, done, recs, run_case, o) = (&next, &done, &recs, &run_case, &o);
                #[cfg(feature = "guided")]
                let (run_draws, family_of, shared, barrier, over) = (&run_draws, &family_of, &shared, &barrier, &over);
                let _ = worker;
                let _ = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    let tid = std::fs::read_link("/proc/thread-self")
                        .ok()
                        .and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|n| n.parse().ok())))
                        .unwrap_or(0);
                    slot.tid.store(tid, Relaxed);
                    let journal = o.journal.as_ref().map(|j| {
                        std::fs::File::create(format!("{j}.{tid}")).unwrap_or_else(|_| die("cannot write journal"))
                    });
                    let mut rec = Rec::default();
                    #[cfg(feature = "guided")]
                    if o.guided {
                        let mut c = crate::cov::Guide::new(hash(&[o.seed, idn, worker as u64]), &shared.lock().unwrap());
                        let mut i = o.first + worker as u64;
                        loop {
                            c.learn(&shared.lock().unwrap());
                            for _ in 0..ROUND {
                                let seed = hash(&[o.seed, idn, i, 0x6763]);
                                let (family, tape) = c.choose().unwrap_or_else(|| (family_of(i / o.threads as u64), Vec::new()));
                                slot.case.store(i + 1, Relaxed);
                                let d = Draws { family, seed, tape };
                                *slot.draws.lock().unwrap() = d.clone();
                                if let Some(j) = &journal {
                                    use std::os::unix::fs::FileExt;
                                    let head = [i, d.family as u64, d.seed, d.tape.len() as u64];
                                    let b: Vec<u8> = head.iter().chain(&d.tape).flat_map(|x| x.to_le_bytes()).collect();
                                    let _ = j.write_all_at(&b, 0);
                                }
                                c.begin();
                                let tape = run_draws(i, &d, &mut rec);
                                c.end(family, tape);
                                i += o.threads as u64;
                            }
                            slot.case.store(0, Relaxed);
                            c.tell(&mut shared.lock().unwrap(), worker);
                            if barrier.wait().is_leader() {
                                shared.lock().unwrap().merge();
                                over.store(i >= total || t0.elapsed() > limit || STOP.load(Relaxed) > 200, Relaxed);
                            }
                            barrier.wait();
                            if over.load(Relaxed) {
                                break;
                            }
                        }
                    }
                    'work: while !o.guided {
                        const CHUNK: u64 = 64;
                        let a = next.fetch_add(CHUNK, Relaxed);
                        if a >= total || t0.elapsed() > limit || STOP.load(Relaxed) > 200 {
                            break;
                        }
                        for i in a..(a + CHUNK).min(total) {
                            slot.case.store(i + 1, Relaxed);
                            if let Some(j) = &journal {
                                use std::os::unix::fs::FileExt;
                                let _ = j.write_all_at(format!("{i:020}\n").as_bytes(), 0);
                            }
                            run_case(i, &mut rec);
                            if STOP.load(Relaxed) > 200 {
                                break 'work;
                            }
                        }
                        slot.case.store(0, Relaxed);
                    }
                    slot.case.store(0, Relaxed);
                    recs.lock().unwrap().push(rec);
                    done.fetch_add(1, Relaxed);
                });
            }
            // Watchdog on the CPU time of the cases.
            let mut last: Vec<(u64, u64)> = vec![(0, 0); slots.len()];
            while done.load(Relaxed) < slots.len() {
                std::thread::sleep(Duration::from_millis(50));
                for (k, slot) in slots.iter().enumerate() {
                    let (tid, case) = (slot.tid.load(Relaxed), slot.case.load(Relaxed));
                    if tid == 0 || case == 0 {
                        continue;
                    }
                    if last[k].0 != case {
                        last[k] = (case, cpu_ticks(tid).unwrap_or(0));
                    } else if let Some(t) = cpu_ticks(tid) {
                        if t.saturating_sub(last[k].1) > HANG_CPU_S * 100 {
                            let v = Violation {
                                case: case - 1,
                                family: "",
                                check: "returns".into(),
                                draws: o.guided.then(|| slot.draws.lock().unwrap().clone()),
                                detail: format!("no answer after {HANG_CPU_S} s of CPU time in one case"),
                            };
                            report(&spec, &o, &v);
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        for r in recs.into_inner().unwrap() {
            all.merge(r);
        }
        #[cfg(feature = "guided")]
        if o.guided {
            let s = shared.lock().unwrap();
            all.count("branches of the crate taken", s.taken());
            all.count("branches of the crate", s.branches());
            all.count("guided cases", s.cases);
            all.count("cases varied from one that took a rare branch", s.varied);
        }
    }
    if o.guided && cfg!(not(feature = "guided")) {
        die("built without coverage feedback");
    }
    all.violations.sort_by_key(|v| v.case);

    let wall = t0.elapsed().as_secs_f64();
    let nviol = all.violations.len();
    if let Some(out) = &o.out {
        let mut cov = String::new();
        let _ = write!(
            cov,
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"nontrivial\":{},\"rule\":{},",
            all.evaluations,
            all.seen.len(),
            all.nontrivial,
            js(spec.rule)
        );
        let held: u64 = all.checks.values().map(|c| c.0).sum();
        let inc: u64 = all.checks.values().map(|c| c.2).sum();
        let bad: u64 = all.checks.values().map(|c| c.1).sum();
        let _ = write!(cov, "\"verdicts\":{{\"held\":{held},\"violated\":{bad},\"inconclusive\":{inc}}},\"monitors\":{{");
        for (i, (k, v)) in all.checks.iter().enumerate() {
            let _ = write!(
                cov,
                "{}{}:{{\"held\":{},\"violated\":{},\"inconclusive\":{},\"max_error_over_bound\":{:.4}}}",
                if i > 0 { "," } else { "" },
                js(k),
                v.0,
                v.1,
                v.2,
                v.3
            );
        }
        cov.push_str("},\"classes\":{");
        for (i, (k, v)) in all.classes.iter().enumerate() {
            let _ = write!(cov, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v);
        }
        cov.push_str("},\"counters\":{");
        for (i, (k, v)) in all.counters.iter().enumerate() {
            let _ = write!(cov, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v);
        }
        cov.push_str("},\"samples\":[");
        all.samples.sort();
        // a few of each family
        let mut per: BTreeMap<String, usize> = BTreeMap::new();
        let mut first = true;
        for s in &all.samples {
            let fam = s.split(" case ").next().unwrap_or("").to_string();
            let c = per.entry(fam).or_default();
            *c += 1;
            if *c > 2 {
                continue;
            }
            let _ = write!(cov, "{}{}", if first { "" } else { "," }, js(&cut(s, 900)));
            first = false;
        }
        cov.push_str("]}");
        let ass: Vec<String> = spec.assumptions.iter().map(|s| js(s)).collect();
        let json = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            js(spec.id),
            js(if o.thorough { "thorough" } else { "quick" }),
            o.seed,
            cov,
            ass.join(","),
            wall,
            nviol
        );
        if std::fs::write(out, json).is_err() {
            die(&format!("cannot write {out}"));
        }
    }
    for v in all.violations.iter().take(5) {
        println!("violated: case {} [{}] {}", v.case, v.family, cut(&v.detail, 1500));
    }
    if let Some(v) = all.violations.first() {
        report(&spec, &o, v);
        return 1;
    }
    let verdicts = all.counters.get("cases with a verdict").copied().unwrap_or(0);
    println!(
        "{} {}: {} inputs, {} distinct non-trivial, {} cases with a verdict, {:.1} s",
        spec.id,
        o.leg,
        all.evaluations,
        all.seen.len(),
        verdicts,
        wall
    );
    if o.only.is_none() && o.cases.is_none() && !o.guided && (all.seen.len() as u64) < spec.min_distinct {
        die(&format!("too little was observed: {} of at least {} distinct inputs", all.seen.len(), spec.min_distinct));
    }
    0
}

fn report(spec: &Spec, o: &Opts, v: &Violation) {
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let path = format!("{}/{}-{}-seed{}-case{}.json", o.replay_dir, spec.id, o.leg, o.seed, v.case);
    let draws = v.draws.as_ref().or(o.draws.as_ref()).map_or(String::new(), |d| {
        let t: Vec<String> = d.tape.iter().map(|x| x.to_string()).collect();
        format!("\"draws_family\": {}, \"draws_seed\": {}, \"draws\": [{}], ", d.family, d.seed, t.join(", "))
    });
    let words: Vec<String> = o.words.iter().map(|x| format!("{x:?}")).collect();
    let cmd = format!("cd /verif && ./check {} --leg {} --replay {}", spec.id, o.leg, path);
    let _ = std::fs::write(
        &path,
        format!(
            "{{\"property\": {}, {}\"words\": [{}], \"leg\": {}, \"seed\": {}, \"case\": {}, \"family\": {}, \"check\": {}, \"detail\": {}, \"command\": {}}}\n",
            js(spec.id),
            draws,
            words.join(", "),
            js(&o.leg),
            o.seed,
            v.case,
            js(v.family),
            js(&v.check),
            js(&v.detail),
            js(&cmd)
        ),
    );
    println!("VIOLATION property={} replay={}", spec.id, path);
}

/// User and system CPU time of a thread, in ticks of 10 ms.
fn cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let s = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = s.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// Hash of scalar bits.
pub fn key<R: crate::sc::Sc>(xs: &[R]) -> u64 {
    let mut h = hash(&[R::NAME.len() as u64, (R::EPS).to_bits()]);
    for x in xs {
        let k = x.key();
        h = hash(&[h, k as u64, (k >> 64) as u64]);
    }
    h
}
