//! Stateless exploration of scenarios: iterative deviation bounding over the choice tree,
//! sharded over worker processes; replay of recorded executions.

use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vsched::{Outcome, Pt, Script};

pub type Dev = Vec<(u32, u8)>;

#[derive(Default)]
pub struct CtxInner {
    pub fails: Vec<String>,
    /// failures that name a recorded finding
    pub known: Vec<(String, String)>,
    pub obs: Vec<String>,
    pub checks: u64,
    pub states: HashSet<u64>,
    pub transitions: u64,
}
/// What one execution reports to the explorer.
#[derive(Clone, Default)]
pub struct Ctx(Arc<Mutex<CtxInner>>);
impl Ctx {
    pub fn fail(&self, m: impl Into<String>) {
        let m = m.into();
        vsched::logf(|| format!("FAIL {m}"));
        self.0.lock().unwrap().fails.push(m);
    }
    /// a failure that is a recorded finding if (and only if) the known-findings file lists `key`
    pub fn fail_known(&self, key: &str, m: impl Into<String>) {
        self.0.lock().unwrap().known.push((key.into(), m.into()));
    }
    pub fn check(&self, ok: bool, m: impl FnOnce() -> String) -> bool {
        progress::alive();
        self.0.lock().unwrap().checks += 1;
        if !ok {
            self.fail(m());
        }
        ok
    }
    /// an observation; the concatenation of observations identifies the outcome
    pub fn obs(&self, m: impl Into<String>) {
        let m = m.into();
        vsched::logf(|| m.clone());
        self.0.lock().unwrap().obs.push(m);
    }
    /// one abstract state reached by one transition
    pub fn state(&self, h: u64) {
        let mut g = self.0.lock().unwrap();
        g.states.insert(h);
        g.transitions += 1;
    }
    pub fn failed(&self) -> bool {
        !self.0.lock().unwrap().fails.is_empty()
    }
}

pub type Body = Arc<dyn Fn(Ctx) + Send + Sync>;

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    /// deviation bound
    pub bound: u32,
    /// what a choice at a point where the running thread cannot go on costs
    pub free_cost: u32,
    pub max_steps: usize,
    /// tasks/threads may panic (the body decides what a panic means)
    pub panics_ok: bool,
    /// jobs may panic with a message that contains this
    pub tolerates: &'static str,
    /// runs on an ordinary thread with real IO instead of under the controlled scheduler
    pub direct: bool,
    pub shard_depth: usize,
    pub about: String,
    pub body: Body,
}
impl Scenario {
    pub fn new(name: impl Into<String>, bound: u32, body: impl Fn(Ctx) + Send + Sync + 'static) -> Self {
        Scenario {
            name: name.into(),
            bound,
            free_cost: 1,
            max_steps: 60_000,
            panics_ok: false,
            tolerates: "",
            direct: false,
            about: String::new(),
            shard_depth: if bound <= 1 { 1 } else { 2 },
            body: Arc::new(body),
        }
    }
    pub fn free(mut self, c: u32) -> Self {
        self.free_cost = c;
        self
    }
    pub fn direct(mut self) -> Self {
        self.direct = true;
        self
    }
    pub fn about(mut self, s: impl Into<String>) -> Self {
        self.about = s.into();
        self
    }
    pub fn shard(mut self, d: usize) -> Self {
        self.shard_depth = d;
        self
    }
    pub fn steps(mut self, n: usize) -> Self {
        self.max_steps = n;
        self
    }
    pub fn tolerates(mut self, what: &'static str) -> Self {
        self.tolerates = what;
        self
    }
    pub fn panics_ok(mut self) -> Self {
        self.panics_ok = true;
        self
    }
    fn cost(&self, p: &Pt) -> u32 {
        match p.kind {
            vsched::K_ENV => 0,
            vsched::K_FREE => self.free_cost,
            _ => 1,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Violation {
    pub scenario: String,
    pub deviations: Dev,
    pub cost: u32,
    pub messages: Vec<String>,
    pub observations: Vec<String>,
    #[serde(default)]
    pub log: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct ScnStats {
    pub executions: u64,
    pub points: u64,
    pub steps: u64,
    pub nodes: u64,
    pub checks: u64,
    pub max_threads: usize,
    pub by_cost: BTreeMap<u32, u64>,
    pub outcomes: Vec<u64>,
    pub abs_states: Vec<u64>,
    pub abs_transitions: u64,
    pub samples: Vec<String>,
    pub capped: bool,
    pub wall_s: f64,
    pub bound: u32,
    pub about: String,
    pub known: std::collections::BTreeSet<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct WorkerOut {
    pub stats: BTreeMap<String, ScnStats>,
    pub violation: Option<Violation>,
    pub error: Option<String>,
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}

pub struct RunOut {
    pub trace: Vec<Pt>,
    pub messages: Vec<String>,
    pub known: Vec<String>,
    pub obs: Vec<String>,
    pub log: Vec<String>,
    pub fatal: bool,
    pub diverged: Option<String>,
    pub steps: usize,
    pub threads: usize,
    pub checks: u64,
    pub states: HashSet<u64>,
    pub transitions: u64,
}

// ---- choices of scenarios, controlled or direct --------------------------------------
#[derive(Default)]
struct Direct {
    dev: Dev,
    dev_i: usize,
    trace: Vec<Pt>,
    diverged: Option<String>,
    verbose: bool,
    log: Vec<String>,
}
thread_local! {
    static DIRECT: std::cell::RefCell<Option<Direct>> = const { std::cell::RefCell::new(None) };
}
/// One of `n` alternatives of the scenario; every one of them is explored, at no cost.
pub fn pick(n: usize) -> usize {
    // an alternative is kept in one byte: a larger choice is two
    if n > 250 {
        let hi = pick(n.div_ceil(250));
        return hi * 250 + pick((n - hi * 250).min(250));
    }
    if vsched::active() {
        return vsched::env_choice(n);
    }
    if n <= 1 {
        return 0;
    }
    DIRECT.with(|d| {
        let mut g = d.borrow_mut();
        let d = g.as_mut().expect("pick outside of a scenario");
        let i = d.trace.len() as u32;
        let mut took = 0;
        if let Some(&(di, alt)) = d.dev.get(d.dev_i) {
            if di == i {
                d.dev_i += 1;
                if (alt as usize) < n {
                    took = alt as usize;
                } else {
                    d.diverged = Some(format!("point {i}: alternative {alt} of {n}"));
                }
            }
        }
        d.trace.push(Pt {
            n: u8::try_from(n).unwrap(),
            kind: vsched::K_ENV,
            took: took as u8,
        });
        took
    })
}
pub fn log(f: impl FnOnce() -> String) {
    if vsched::active() {
        return vsched::logf(f);
    }
    DIRECT.with(|d| {
        if let Some(d) = d.borrow_mut().as_mut() {
            if d.verbose {
                d.log.push(f());
            }
        }
    })
}

fn run_direct(sc: &Scenario, dev: &Dev, verbose: bool, ctx: &Ctx) -> vsched::Exec {
    let (body, c2, dev) = (sc.body.clone(), ctx.clone(), dev.clone());
    let h = std::thread::spawn(move || {
        vsched::set_det_rng(0x1234_5678_9abc_def1);
        DIRECT.with(|d| {
            *d.borrow_mut() = Some(Direct {
                dev,
                verbose,
                ..Default::default()
            })
        });
        let c3 = c2.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(c2)));
        if r.is_err() {
            c3.fail("the scenario was ended by a panic");
        }
        DIRECT.with(|d| d.borrow_mut().take().unwrap())
    });
    let d = h.join().expect("direct scenario");
    vsched::real_clock();
    let left = d.dev_i != d.dev.len();
    vsched::Exec {
        outcome: Outcome::Done,
        steps: d.trace.len(),
        trace: d.trace,
        log: d.log,
        diverged: d
            .diverged
            .or_else(|| left.then(|| "deviations left over".to_string())),
        threads: 1,
    }
}

pub fn run_once(sc: &Scenario, dev: &Dev, verbose: bool) -> RunOut {
    progress::begin(&sc.name, dev);
    let ctx = Ctx::default();
    let c2 = ctx.clone();
    let body = sc.body.clone();
    let _ = vsched::take_panics();
    let ex = if sc.direct {
        run_direct(sc, dev, verbose, &ctx)
    } else {
      vsched::run(
        Script {
            dev: dev.clone(),
            max_steps: sc.max_steps,
            verbose,
            base_ns: 1_000_000_000_000_000,
        },
        move || {
            let c3 = c2.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(c2)));
            if r.is_err() {
                c3.fail("the scenario was ended by a panic");
            }
        },
      )
    };
    let mut panics = vsched::take_panics();
    if !sc.tolerates.is_empty() {
        panics.retain(|p| !format!("{p}").contains(sc.tolerates));
    }
    let mut g = ctx.0.lock().unwrap();
    let mut messages = std::mem::take(&mut g.fails);
    let fatal = ex.outcome != Outcome::Done;
    match &ex.outcome {
        Outcome::Done => {}
        Outcome::Deadlock(t) => messages.push(format!("deadlock: {}", t.join("; "))),
        Outcome::Livelock(t) => messages.push(format!("livelock: {}", t.join("; "))),
        Outcome::StepLimit => messages.push("no end within the step limit".into()),
    }
    if !sc.panics_ok || fatal || !messages.is_empty() {
        for p in &panics {
            if !sc.panics_ok || !messages.is_empty() {
                messages.push(format!("panic: {p}"));
            }
        }
    }
    let mut known = Vec::new();
    for (k, m) in std::mem::take(&mut g.known) {
        if is_known(&k) {
            known.push(k);
        } else {
            messages.push(m);
        }
    }
    RunOut {
        trace: ex.trace,
        messages,
        known,
        obs: std::mem::take(&mut g.obs),
        log: ex.log,
        fatal,
        diverged: ex.diverged,
        steps: ex.steps,
        threads: ex.threads,
        checks: g.checks,
        states: std::mem::take(&mut g.states),
        transitions: g.transitions,
    }
}

struct Explorer<'a> {
    sc: &'a Scenario,
    st: ScnStats,
    outcomes: HashSet<u64>,
    states: HashSet<u64>,
    shard: (usize, usize),
    shard_depth: usize,
    counter: u64,
    deadline: Instant,
    level: u32,
    violation: Option<Violation>,
    error: Option<String>,
}

/// The kernel frees what belonged to an ended thread some time later. If millions of them end
/// on busy processors it falls behind, by gigabytes: then waits until it has caught up.
fn breathe() {
    use std::cell::Cell;
    thread_local! {
        static LAST: Cell<Option<Instant>> = const { Cell::new(None) };
    }
    let now = Instant::now();
    if LAST.get().is_some_and(|l| now - l < Duration::from_millis(50)) {
        return;
    }
    LAST.set(Some(now));
    let scarce = || {
        let text = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
        let kb = |name: &str| -> Option<u64> {
            text.lines().find_map(|l| l.strip_prefix(name))?.trim().trim_end_matches(" kB").parse().ok()
        };
        match (kb("MemAvailable:"), kb("MemTotal:")) {
            (Some(a), Some(t)) => a < t / 10 * 7,
            _ => false,
        }
    };
    while scarce() && now.elapsed() < Duration::from_secs(2) {
        std::thread::sleep(Duration::from_millis(20));
    }
}

impl<'a> Explorer<'a> {
    fn run(&mut self) {
        for level in 0..=self.sc.bound {
            self.level = level;
            self.counter = 0;
            self.dfs();
            if self.violation.is_some() || self.error.is_some() || self.st.capped {
                return;
            }
        }
    }
    fn dfs(&mut self) {
        // (deviations, cost, expected number of alternatives at the last deviation)
        let mut stack: Vec<(Dev, u32, u8)> = vec![(Vec::new(), 0, 0)];
        while let Some((dev, cost, n_at)) = stack.pop() {
            if Instant::now() > self.deadline {
                self.st.capped = true;
                return;
            }
            breathe();
            let depth = dev.len();
            let mine = depth >= self.shard_depth || self.shard.0 == 0;
            let o = run_once(self.sc, &dev, false);
            if let Some(d) = o.diverged {
                self.error = Some(format!("{}: replay diverged: {d} dev={dev:?}", self.sc.name));
                return;
            }
            if let Some(&(i, a)) = dev.last() {
                let p = &o.trace[i as usize];
                if p.n != n_at || p.took != a {
                    self.error = Some(format!(
                        "{}: replay diverged at point {i}: {} alternatives, recorded {n_at}; dev={dev:?}",
                        self.sc.name, p.n
                    ));
                    return;
                }
            }
            if cost == self.level && mine {
                self.st.executions += 1;
                self.st.points += o.trace.len() as u64;
                let from = dev.last().map(|d| d.0 as usize + 1).unwrap_or(0);
                self.st.nodes += (o.trace.len() - from) as u64 + 1;
                self.st.steps += o.steps as u64;
                self.st.checks += o.checks;
                self.st.max_threads = self.st.max_threads.max(o.threads);
                *self.st.by_cost.entry(cost).or_default() += 1;
                self.st.abs_transitions += o.transitions;
                self.st.known.extend(o.known.iter().cloned());
                self.states.extend(o.states.iter());
                let ob = o.obs.join(" | ");
                if self.outcomes.insert(hash_str(&ob)) && self.st.samples.len() < 3 {
                    self.st.samples.push(format!(
                        "{} deviations={:?}: {}",
                        self.sc.name,
                        dev,
                        ob.chars().take(600).collect::<String>()
                    ));
                }
                if !o.messages.is_empty() {
                    self.violation = Some(Violation {
                        scenario: self.sc.name.clone(),
                        deviations: dev,
                        cost,
                        messages: o.messages,
                        observations: o.obs,
                        log: vec![],
                    });
                    return;
                }
            }
            if o.fatal {
                // below the current level, or the first worker's: reported there
                self.error = Some(format!("{}: execution stuck at {dev:?}", self.sc.name));
                return;
            }
            let from = dev.last().map(|d| d.0 as usize + 1).unwrap_or(0);
            for i in (from..o.trace.len()).rev() {
                let p = o.trace[i];
                let c = cost + self.sc.cost(&p);
                if c > self.level {
                    continue;
                }
                for alt in (1..p.n).rev() {
                    if depth + 1 == self.shard_depth {
                        self.counter += 1;
                        if self.counter % self.shard.1 as u64 != self.shard.0 as u64 {
                            continue;
                        }
                    }
                    let mut d = dev.clone();
                    d.push((i as u32, alt));
                    stack.push((d, c, p.n));
                }
            }
        }
    }
}

pub fn explore(sc: &Scenario, shard: (usize, usize), deadline: Instant) -> (ScnStats, Option<Violation>, Option<String>) {
    let t0 = Instant::now();
    let mut e = Explorer {
        sc,
        st: ScnStats {
            bound: sc.bound,
            about: sc.about.clone(),
            ..Default::default()
        },
        outcomes: HashSet::new(),
        states: HashSet::new(),
        shard,
        shard_depth: sc.shard_depth,
        counter: 0,
        deadline,
        level: 0,
        violation: None,
        error: None,
    };
    e.run();
    e.st.outcomes = e.outcomes.iter().copied().take(200_000).collect();
    e.st.abs_states = e.states.iter().copied().take(2_000_000).collect();
    e.st.wall_s = t0.elapsed().as_secs_f64();
    (e.st, e.violation, e.error)
}

/// The worker process: explores its shard of every scenario.
pub fn worker(scs: &[Scenario], shard: (usize, usize), budget_s: f64) -> WorkerOut {
    pin(shard.0);
    let t0 = Instant::now();
    let mut out = WorkerOut::default();
    let total = scs.len();
    for (i, sc) in scs.iter().enumerate() {
        // the remaining time is shared evenly among the scenarios still to run, with slack
        let left = budget_s - t0.elapsed().as_secs_f64();
        let share = (left / (total - i) as f64 * 3.0).min(left).max(1.0);
        let (st, v, e) = explore(sc, shard, Instant::now() + Duration::from_secs_f64(share));
        out.stats.insert(sc.name.clone(), st);
        if v.is_some() || e.is_some() {
            out.violation = v;
            out.error = e;
            break;
        }
    }
    out
}

static KNOWN: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// The keys of the recorded findings of this property.
pub fn set_known(keys: Vec<String>) {
    *KNOWN.lock().unwrap() = keys;
}
fn is_known(k: &str) -> bool {
    KNOWN.lock().unwrap().iter().any(|x| x == k)
}

/// Which execution a worker is in, in memory shared with the coordinator.
pub mod progress {
    use super::Dev;
    use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
    pub const SIZE: usize = 1 << 16;
    static MEM: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
    pub fn map(fd: i32) -> *mut u8 {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            p as *mut u8
        }
    }
    pub fn attach(fd: i32) {
        MEM.store(map(fd), Ordering::SeqCst);
    }
    /// long executions say so now and then
    pub fn alive() {
        let p = MEM.load(Ordering::Relaxed);
        if !p.is_null() {
            unsafe { (*(p as *const AtomicU64)).fetch_add(1, Ordering::SeqCst) };
        }
    }
    pub fn begin(name: &str, dev: &Dev) {
        let p = MEM.load(Ordering::Relaxed);
        if p.is_null() {
            return;
        }
        use std::fmt::Write;
        let mut s = String::with_capacity(64 + dev.len() * 8);
        s.push_str(name);
        s.push('\n');
        for (i, a) in dev {
            let _ = write!(s, "{i}:{a},");
        }
        if s.len() > SIZE - 16 {
            s.truncate(0);
        }
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(16), s.len());
            (*(p.add(8) as *const AtomicU64)).store(s.len() as u64, Ordering::SeqCst);
            (*(p as *const AtomicU64)).fetch_add(1, Ordering::SeqCst);
        }
    }
    pub fn read(p: *mut u8) -> (u64, String, Dev) {
        unsafe {
            let c = (*(p as *const AtomicU64)).load(Ordering::SeqCst);
            let n = (*(p.add(8) as *const AtomicU64)).load(Ordering::SeqCst) as usize;
            let b = std::slice::from_raw_parts(p.add(16), n.min(SIZE - 16)).to_vec();
            let s = String::from_utf8_lossy(&b).to_string();
            let (name, d) = s.split_once('\n').unwrap_or(("", ""));
            let dev = d
                .split(',')
                .filter(|x| !x.is_empty())
                .filter_map(|x| {
                    let (i, a) = x.split_once(':')?;
                    Some((i.parse().ok()?, a.parse().ok()?))
                })
                .collect();
            (c, name.to_string(), dev)
        }
    }
}

fn pin(k: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[k % cpus.len()];
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(c, &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

/// Sends the library's own prints away; the returned file is the real stdout.
pub fn quiet_stdout() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let real = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        std::fs::File::from_raw_fd(real)
    }
}

pub fn emit(f: &mut std::fs::File, w: &WorkerOut) {
    let s = serde_json::to_string(w).unwrap();
    f.write_all(s.as_bytes()).unwrap();
    f.write_all(b"\n").unwrap();
    f.flush().unwrap();
}
