//! vsched: a controlled scheduler for the real OS threads of the code under test.
//!
//! Every thread created while an execution is active runs only while it holds the
//! baton; the baton moves at scheduling points (channel operations of the patched
//! crossbeam-channel, futex system calls, thread creation and join, sleeps, yields and
//! explicit `point()` calls).  At each point where more than one thread could run next,
//! the explorer decides.  Clocks and randomness are virtual and deterministic.
//!
//! The libc entry points are interposed by defining them in the final binary; they fall
//! through to the real ones for threads that are not controlled.

#![allow(static_mut_refs)]

use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

mod interpose;
pub use interpose::real_futex_wait;
use interpose::*;

pub const NONE: usize = usize::MAX;
/// interleaving choice that costs one deviation (a preemption of a runnable thread)
pub const K_PREEMPT: u8 = 1;
/// interleaving choice at a point where the running thread cannot go on
pub const K_FREE: u8 = 2;
/// order in which ready tasks of one executor are polled
pub const K_TASK: u8 = 3;
/// scenario/environment choice
pub const K_ENV: u8 = 4;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
    static EMPTY: Cell<(usize, u64)> = const { Cell::new((0, 0)) };
}

pub type SpawnFn = fn(Pin<Box<dyn Future<Output = ()>>>);
thread_local! {
    static SPAWN: Cell<Option<SpawnFn>> = const { Cell::new(None) };
}
pub fn set_spawner(f: Option<SpawnFn>) {
    SPAWN.with(|s| s.set(f));
}
pub fn spawner() -> Option<SpawnFn> {
    SPAWN.try_with(|s| s.get()).ok().flatten()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Run,
    /// waiting for a notification of `key`
    Blocked,
    Done,
}

struct Th {
    st: St,
    word: Box<AtomicU32>,
    key: usize,
    /// deadline in virtual ns of a timed wait
    deadline: Option<u64>,
    /// wants to be woken when nothing else can run
    on_idle: bool,
    /// wants to be woken rather than end the execution in a deadlock
    last: bool,
    /// busy waiter: parked until something happens, re-enabled a bounded number of times
    spinner: bool,
    why: Why,
    label: &'static str,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Why {
    Notified,
    Timeout,
    Idle,
    Spin,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Done,
    /// nothing can run, but these threads are not finished
    Deadlock(Vec<String>),
    /// only busy-waiting threads are left and nothing they could observe will change
    Livelock(Vec<String>),
    StepLimit,
}

/// One choice point of an execution.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Pt {
    pub n: u8,
    pub kind: u8,
    pub took: u8,
}

pub struct Script {
    /// (index of the choice point, alternative taken); 0 is taken everywhere else
    pub dev: Vec<(u32, u8)>,
    pub max_steps: usize,
    pub verbose: bool,
    pub base_ns: u64,
}

struct Sched {
    th: Vec<Th>,
    cur: usize,
    script: Script,
    dev_i: usize,
    trace: Vec<Pt>,
    steps: usize,
    events: u64,
    clock: u64,
    rng: u64,
    outcome: Option<Outcome>,
    ctl: Box<AtomicU32>,
    respawns: u32,
    log: Vec<String>,
    diverged: Option<String>,
    spin_since: u64,
    slow: Option<Slow>,
}

static mut S: Option<Box<Sched>> = None;

fn s() -> &'static mut Sched {
    unsafe { S.as_mut().expect("vsched: no execution active") }
}

#[inline]
pub fn tid() -> usize {
    TID.try_with(|t| t.get()).unwrap_or(NONE)
}
#[inline]
pub fn active() -> bool {
    tid() != NONE
}

pub struct Exec {
    pub outcome: Outcome,
    pub trace: Vec<Pt>,
    pub log: Vec<String>,
    pub diverged: Option<String>,
    pub steps: usize,
    pub threads: usize,
}

/// Runs `f` as thread 0 of a controlled execution.
pub fn run<F: FnOnce() + Send + 'static>(script: Script, f: F) -> Exec {
    assert!(!active());
    unsafe {
        S = Some(Box::new(Sched {
            th: Vec::with_capacity(16),
            cur: 0,
            clock: script.base_ns,
            script,
            dev_i: 0,
            trace: Vec::with_capacity(256),
            steps: 0,
            events: 1,
            rng: 0x9E3779B97F4A7C15,
            outcome: None,
            ctl: Box::new(AtomicU32::new(0)),
            respawns: 0,
            log: Vec::new(),
            diverged: None,
            spin_since: 0,
            slow: None,
        }));
    }
    ADOPT.store(true, Ordering::SeqCst);
    let h = std::thread::Builder::new()
        .name("root".into())
        .spawn(f)
        .expect("spawn root");
    ADOPT.store(false, Ordering::SeqCst);
    // give the baton to thread 0
    let w: *const AtomicU32 = &*s().th[0].word;
    unsafe { give(&*w) };
    let c: *const AtomicU32 = &*s().ctl;
    unsafe { take(&*c) };
    let sc = s();
    let outcome = sc.outcome.clone().unwrap();
    let ex = Exec {
        outcome: outcome.clone(),
        trace: std::mem::take(&mut sc.trace),
        log: std::mem::take(&mut sc.log),
        diverged: sc.diverged.take().or_else(|| {
            (sc.dev_i != sc.script.dev.len()).then(|| "deviations left over".to_string())
        }),
        steps: sc.steps,
        threads: sc.th.len(),
    };
    if outcome == Outcome::Done {
        let _ = h.join();
        unsafe { S = None };
    } else {
        std::mem::forget(h);
    }
    ex
}

pub(crate) fn new_thread(label: &'static str) -> usize {
    let sc = s();
    sc.th.push(Th {
        st: St::Run,
        word: Box::new(AtomicU32::new(0)),
        key: 0,
        deadline: None,
        on_idle: false,
        last: false,
        spinner: false,
        why: Why::Notified,
        label,
    });
    sc.th.len() - 1
}

pub(crate) fn thread_main_enter(id: usize) {
    TID.with(|t| t.set(id));
    let w: *const AtomicU32 = &*s().th[id].word;
    unsafe { take(&*w) };
}

pub(crate) fn thread_main_exit() {
    let me = tid();
    let sc = s();
    sc.th[me].st = St::Done;
    notify(join_key(me), usize::MAX);
    TID.with(|t| t.set(NONE));
    // The next holder is decided now; after the hand-off this thread touches nothing.
    match pick(None) {
        Some(n) => {
            sc.cur = n;
            let w: *const AtomicU32 = &*sc.th[n].word;
            unsafe { give(&*w) }
        }
        None => finish(),
    }
}

pub(crate) fn join_key(t: usize) -> usize {
    0x7000_0000_0000_0000 | t
}

pub(crate) fn is_done(t: usize) -> bool {
    s().th[t].st == St::Done
}

fn finish() {
    let sc = s();
    if sc.outcome.is_none() {
        let left: Vec<String> = sc
            .th
            .iter()
            .enumerate()
            .filter(|(_, t)| t.st != St::Done)
            .map(|(i, t)| format!("thread {i} in {}", t.label))
            .collect();
        sc.outcome = Some(if left.is_empty() {
            Outcome::Done
        } else if sc.th.iter().any(|t| t.spinner && t.st == St::Blocked) {
            Outcome::Livelock(left)
        } else {
            Outcome::Deadlock(left)
        });
    }
    let c: *const AtomicU32 = &*sc.ctl;
    unsafe { give(&*c) };
}

fn park_forever() -> ! {
    loop {
        let w = AtomicU32::new(0);
        real_futex_wait(&w, 0);
    }
}

/// A decision with `n` alternatives.
pub fn choose(n: usize, kind: u8) -> usize {
    if n <= 1 {
        return 0;
    }
    let sc = s();
    let i = sc.trace.len() as u32;
    let mut took = 0usize;
    if let Some(&(di, alt)) = sc.script.dev.get(sc.dev_i) {
        if di == i {
            sc.dev_i += 1;
            if (alt as usize) < n {
                took = alt as usize;
            } else {
                sc.diverged = Some(format!("point {i}: alternative {alt} of {n}"));
            }
        }
    }
    sc.trace.push(Pt {
        n: n.min(255) as u8,
        kind,
        took: took as u8,
    });
    took
}

pub fn env_choice(n: usize) -> usize {
    if !active() {
        return 0;
    }
    choose(n, K_ENV)
}

/// Chooses the next thread to run. `me`: the running thread, if it can go on.
fn pick(me: Option<usize>) -> Option<usize> {
    let sc = s();
    sc.steps += 1;
    if sc.steps > sc.script.max_steps {
        sc.outcome = Some(Outcome::StepLimit);
        return None;
    }
    loop {
        let mut cand = [0usize; 64];
        let mut n = 0;
        if let Some(m) = me {
            cand[n] = m;
            n += 1;
        }
        let len = sc.th.len();
        let start = sc.cur + 1;
        for k in 0..len {
            let i = (start + k) % len;
            if Some(i) != me && sc.th[i].st == St::Run && n < 64 {
                cand[n] = i;
                n += 1;
            }
        }
        if n > 0 {
            let k = if me.is_some() { K_PREEMPT } else { K_FREE };
            let c = choose(n, k);
            return Some(cand[c]);
        }
        // nothing can run: first the executor waiting for quiescence,
        if let Some(i) = (0..len).find(|&i| sc.th[i].st == St::Blocked && sc.th[i].on_idle) {
            let t = &mut sc.th[i];
            t.st = St::Run;
            t.why = Why::Idle;
            return Some(i);
        }
        // then the earliest timed wait,
        if let Some(i) = (0..len)
            .filter(|&i| sc.th[i].st == St::Blocked && sc.th[i].deadline.is_some())
            .min_by_key(|&i| sc.th[i].deadline)
        {
            let t = &mut sc.th[i];
            t.st = St::Run;
            t.why = Why::Timeout;
            let d = t.deadline.take().unwrap();
            if d > sc.clock {
                sc.clock = d;
            }
            return Some(i);
        }
        // then busy waiters, which may be polling the clock: a bounded number of turns
        // without any event in between
        if sc.events != sc.spin_since {
            sc.spin_since = sc.events;
            sc.respawns = 0;
        }
        if sc.respawns < 40 {
            if let Some(i) = (0..len).find(|&i| sc.th[i].st == St::Blocked && sc.th[i].spinner) {
                sc.respawns += 1;
                sc.clock += 250_000_000;
                let t = &mut sc.th[i];
                t.st = St::Run;
                t.why = Why::Spin;
                return Some(i);
            }
        }
        // then those who can let time pass
        let l = |k: usize| (sc.cur + 1 + k) % len;
        if let Some(i) = (0..len).map(l).find(|&i| sc.th[i].st == St::Blocked && sc.th[i].last) {
            let t = &mut sc.th[i];
            t.st = St::Run;
            t.why = Why::Idle;
            return Some(i);
        }
        return None;
    }
}

fn switch_to(next: Option<usize>) {
    let sc = s();
    let me = tid();
    match next {
        Some(n) if n == me => {}
        Some(n) => {
            sc.cur = n;
            if sc.script.verbose {
                sc.log.push(format!(
                    "[{}] run thread {n} (leaving {me} in {})",
                    sc.trace.len(),
                    sc.th[me].label
                ));
            }
            let mine: *const AtomicU32 = &*sc.th[me].word;
            let w: *const AtomicU32 = &*sc.th[n].word;
            unsafe {
                give(&*w);
                take(&*mine);
            }
        }
        None => {
            finish();
            park_forever()
        }
    }
}

/// A scheduling point: another runnable thread may go first.
pub fn point(label: &'static str) {
    let me = tid();
    if me == NONE {
        return;
    }
    s().th[me].label = label;
    let n = pick(Some(me));
    switch_to(n);
}

/// Blocks until `key` is notified.
pub fn block(key: usize, label: &'static str) -> Why {
    block_full(key, label, None, false, false)
}
pub fn block_timed(key: usize, label: &'static str, ns: u64) -> Why {
    let d = s().clock + ns;
    block_full(key, label, Some(d), false, false)
}
/// Blocks until `key` is notified or nothing else can run.
pub fn block_idle(key: usize, label: &'static str) -> Why {
    block_full(key, label, None, true, false)
}
/// Blocks until `key` is notified or everything would be over.
pub fn block_last(key: usize, label: &'static str) -> Why {
    let me = tid();
    s().th[me].last = true;
    let why = block_full(key, label, None, false, false);
    s().th[me].last = false;
    why
}
/// A busy waiter gives way until any event happens.
pub fn block_spin(label: &'static str) -> Why {
    block_full(usize::MAX, label, None, false, true)
}
fn block_full(
    key: usize,
    label: &'static str,
    deadline: Option<u64>,
    on_idle: bool,
    spinner: bool,
) -> Why {
    let me = tid();
    if deadline.is_some_and(slow_wait) {
        return Why::Timeout;
    }
    let sc = s();
    let t = &mut sc.th[me];
    t.st = St::Blocked;
    t.key = key;
    t.deadline = deadline;
    t.on_idle = on_idle;
    t.spinner = spinner;
    t.why = Why::Notified;
    t.label = label;
    let n = pick(None);
    switch_to(n);
    let t = &mut s().th[me];
    t.on_idle = false;
    t.spinner = false;
    t.deadline = None;
    t.why
}

/// Wakes up to `n` threads blocked on `key`, and every busy waiter.
pub fn notify(key: usize, n: usize) -> usize {
    let sc = s();
    sc.events += 1;
    let mut c = 0;
    for t in sc.th.iter_mut() {
        if t.st == St::Blocked {
            if t.spinner {
                t.st = St::Run;
                t.why = Why::Notified;
            } else if t.key == key && c < n {
                t.st = St::Run;
                t.why = Why::Notified;
                c += 1;
            }
        }
    }
    c
}

pub fn events() -> u64 {
    s().events
}
pub fn others_runnable() -> bool {
    let me = tid();
    s().th
        .iter()
        .enumerate()
        .any(|(i, t)| i != me && t.st == St::Run)
}

/// Called by a non-blocking receive that found nothing: the second time in a row without
/// any event in between the caller is spinning, and gives way until something happens.
pub fn poll_empty(chan: usize, label: &'static str) {
    if !active() {
        return;
    }
    let e = events();
    let last = EMPTY.with(|c| c.get());
    EMPTY.with(|c| c.set((chan, e)));
    if last == (chan, e) {
        if slow_begins() {
            return;
        }
        block_spin(label);
    }
}
/// Arbitrarily slow other threads: the `skip`th time from now that a thread polls a channel
/// in vain, or waits with a time limit, it goes on doing so for `spins` rounds, or until
/// the time `ns` has passed, before any other thread makes a step.
pub fn set_slow(skip: u32, spins: u64, ns: u64) {
    if active() {
        s().slow = Some(Slow { skip, spins, ns, tick: ns / spins, on: false });
    }
}
pub struct Slow {
    skip: u32,
    spins: u64,
    ns: u64,
    tick: u64,
    on: bool,
}
/// begins a slow period, if it is the turn of this wait
fn slow_begins() -> bool {
    match &mut s().slow {
        Some(w) if !w.on && w.skip > 0 => {
            w.skip -= 1;
            false
        }
        Some(w) if !w.on => {
            w.on = true;
            true
        }
        _ => false,
    }
}
/// in a slow period
pub fn slow_now() -> bool {
    s().slow.as_ref().is_some_and(|w| w.on)
}
/// Within a slow period nothing but the clock moves.
pub fn slow_round(chan: usize) -> bool {
    let sc = s();
    if let Some(w) = &mut sc.slow {
        if w.on && EMPTY.with(|c| c.get()) == (chan, sc.events) {
            w.spins -= 1;
            sc.clock += w.tick;
            if w.spins == 0 {
                sc.slow = None;
            }
            return true;
        }
    }
    false
}
/// A wait until `deadline` that ends before others make a step.
fn slow_wait(deadline: u64) -> bool {
    if !others_runnable() {
        return false;
    }
    let begun = slow_begins();
    let sc = s();
    match &mut sc.slow {
        Some(w) if begun || w.on => {
            let d = deadline.saturating_sub(sc.clock).max(1000);
            sc.clock += d;
            w.ns = w.ns.saturating_sub(d);
            if w.ns == 0 {
                sc.slow = None;
            }
            true
        }
        _ => false,
    }
}
pub fn reset_poll_empty() {
    EMPTY.with(|c| c.set((0, 0)));
}

pub fn now_ns() -> u64 {
    s().clock
}
pub fn advance_clock(ns: u64) {
    s().clock += ns;
}
pub fn logf(f: impl FnOnce() -> String) {
    if active() && s().script.verbose {
        let me = tid();
        let m = f();
        s().log.push(format!("    thread {me}: {m}"));
    }
}
thread_local! {
    static DET: Cell<u64> = const { Cell::new(0) };
}
/// How far this process's clocks are ahead, outside controlled executions.
pub(crate) static SKIPPED: AtomicU64 = AtomicU64::new(0);
pub fn skip_clock(ns: u64) {
    SKIPPED.fetch_add(ns, Ordering::Relaxed);
}
pub fn real_clock() {
    SKIPPED.store(0, Ordering::Relaxed);
}
/// Makes the randomness of this thread deterministic outside controlled executions.
pub fn set_det_rng(seed: u64) {
    DET.with(|d| d.set(seed));
}
pub(crate) fn det_active() -> bool {
    DET.try_with(|d| d.get() != 0).unwrap_or(false)
}
fn lcg(x: u64) -> u64 {
    x.wrapping_mul(6364136223846793005)
        .wrapping_add(1442695040888963407)
}
pub(crate) fn next_random() -> u64 {
    let x = if active() {
        let sc = s();
        sc.rng = lcg(sc.rng);
        sc.rng
    } else {
        DET.with(|d| {
            d.set(lcg(d.get()) | 1 << 40);
            d.get()
        })
    };
    (x ^ (x >> 29)).wrapping_mul(0xBF58476D1CE4E5B9)
}

// ---- helpers for the patched crossbeam-channel -----------------------------------
pub mod chan {
    use super::*;
    pub fn before(label: &'static str) {
        if active() {
            point(label)
        }
    }
    pub fn changed(id: usize) {
        if active() {
            notify(id, usize::MAX);
        }
    }
    /// returns false on timeout
    pub fn wait(id: usize, label: &'static str, timeout_ns: Option<u64>) -> bool {
        match timeout_ns {
            None => {
                block(id, label);
                true
            }
            Some(ns) => block_timed(id, label, ns) != Why::Timeout,
        }
    }
}

// ---- panic bookkeeping -------------------------------------------------------------
static PANICS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
/// Installs a silent panic hook that remembers the messages of controlled threads.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        if active() || det_active() {
            PANICS.lock().unwrap().push(format!("{msg} at {loc}"));
        } else {
            eprintln!("harness panic: {msg} at {loc}");
        }
    }));
}
/// Panics raised so far by controlled threads in this execution (baton holder only).
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut PANICS.lock().unwrap())
}
pub fn panic_count() -> usize {
    PANICS.lock().unwrap().len()
}
