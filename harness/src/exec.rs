//! A small single-threaded async executor under the control of the explorer.
//!
//! Actors of the library are spawned onto it (the patched `actix_rt::spawn` hands their
//! futures over), the order in which ready tasks are polled is a choice of the explorer
//! (first come, first served unless it deviates), time is tokio's paused clock and only
//! moves when the scenario says so.

use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

struct ReadyQ {
    q: Mutex<(VecDeque<usize>, Vec<bool>)>,
    owner: usize,
    polling: std::sync::atomic::AtomicUsize,
}
struct TaskWaker {
    q: Arc<ReadyQ>,
    id: usize,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        {
            let mut g = self.q.q.lock().unwrap();
            if g.1[self.id] {
                return;
            }
            g.1[self.id] = true;
            g.0.push_back(self.id);
        }
        // a task that wakes itself while it is polled makes no event
        let polling = self.q.polling.load(std::sync::atomic::Ordering::Relaxed);
        if vsched::active() && !(vsched::tid() == self.q.owner && polling == self.id) {
            vsched::notify(exec_key(self.q.owner), 1);
        }
    }
}
fn exec_key(t: usize) -> usize {
    0x6000_0000_0000_0000 | t
}

struct Inner {
    tasks: RefCell<Vec<Option<BoxFut>>>,
    q: Arc<ReadyQ>,
    idle: RefCell<VecDeque<Waker>>,
    explore: Cell<bool>,
    polls: Cell<u64>,
    panics: RefCell<Vec<usize>>,
    rt: Rc<tokio::runtime::Runtime>,
    local: tokio::task::LocalSet,
}

thread_local! {
    static CUR: RefCell<Option<Rc<Inner>>> = const { RefCell::new(None) };
}
fn cur() -> Rc<Inner> {
    CUR.with(|c| c.borrow().clone().expect("no executor on this thread"))
}

fn spawn_box(f: BoxFut) {
    let ex = cur();
    let id = {
        let mut t = ex.tasks.borrow_mut();
        t.push(Some(f));
        t.len() - 1
    };
    let mut g = ex.q.q.lock().unwrap();
    g.1.push(true);
    g.0.push_back(id);
}
pub fn spawn<F: Future<Output = ()> + 'static>(f: F) {
    spawn_box(Box::pin(f))
}

/// Explore the poll order of tasks on this executor (off: first come, first served).
pub fn explore_tasks(on: bool) {
    cur().explore.set(on)
}
pub fn polls() -> u64 {
    cur().polls.get()
}
/// Number of tasks (actors, helper tasks) of this executor that died by panicking.
pub fn task_panics() -> usize {
    cur().panics.borrow().len()
}

/// Resolves when no task of this executor and no other thread can make a step.
pub fn idle() -> impl Future<Output = ()> {
    let mut armed = false;
    std::future::poll_fn(move |cx| {
        if armed {
            return Poll::Ready(());
        }
        armed = true;
        cur().idle.borrow_mut().push_back(cx.waker().clone());
        Poll::Pending
    })
}

/// Moves virtual time forward (timers fire; the woken tasks run when polled).
pub fn advance_ms(ms: u64) {
    let ex = cur();
    let d = Duration::from_millis(ms);
    vsched::advance_clock(ms * 1_000_000);
    ex.rt.block_on(tokio::time::advance(d));
}
thread_local! {
    static EXTRA: Cell<u64> = const { Cell::new(0) };
}
/// virtual time (ms) that passed without the scenario asking for it
pub fn extra_ms() -> u64 {
    EXTRA.with(|e| e.get())
}
/// Lets a moment pass, a millisecond at a time, until `done` or for `most` milliseconds.
pub async fn moment(most: u64, done: impl Fn() -> bool) {
    for _ in 0..most {
        if done() {
            return;
        }
        advance_ms(1);
        EXTRA.with(|e| e.set(e.get() + 1));
        idle().await;
    }
}
/// Lets everything settle, moves time by `ms` in steps of at most `step`, settling after each.
pub async fn pass_ms(ms: u64, step: u64) {
    idle().await;
    let mut left = ms;
    while left > 0 {
        let d = left.min(step);
        advance_ms(d);
        left -= d;
        idle().await;
    }
}

/// Runs `main` to completion on this thread.
pub fn block_on<T: 'static, F: Future<Output = T> + 'static>(main: F) -> T {
    let rt = Rc::new(
        tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .unwrap(),
    );
    let owner = vsched::tid();
    let inner = Rc::new(Inner {
        tasks: RefCell::new(Vec::new()),
        q: Arc::new(ReadyQ {
            q: Mutex::new((VecDeque::new(), Vec::new())),
            owner,
            polling: std::sync::atomic::AtomicUsize::new(usize::MAX),
        }),
        idle: RefCell::new(VecDeque::new()),
        explore: Cell::new(false),
        polls: Cell::new(0),
        panics: RefCell::new(Vec::new()),
        rt: rt.clone(),
        local: tokio::task::LocalSet::new(),
    });
    CUR.with(|c| *c.borrow_mut() = Some(inner.clone()));
    vsched::set_spawner(Some(spawn_box));
    let guard = rt.enter();
    let local_guard = inner.local.enter();

    let out: Rc<RefCell<Option<T>>> = Rc::new(RefCell::new(None));
    {
        let out = out.clone();
        spawn_box(Box::pin(async move {
            let v = main.await;
            *out.borrow_mut() = Some(v);
        }));
    }
    let mut since = (0u64, 0usize); // (event count, polls since it changed)
    EXTRA.with(|e| e.set(0));
    let spare = Cell::new(100u32);
    loop {
        let n = inner.q.q.lock().unwrap().0.len();
        if n > 0 {
            let i = if inner.explore.get() {
                vsched::choose(n, vsched::K_TASK)
            } else {
                0
            };
            let id = {
                let mut g = inner.q.q.lock().unwrap();
                let id = g.0.remove(i).unwrap();
                g.1[id] = false;
                id
            };
            let fut = inner.tasks.borrow_mut()[id].take();
            if let Some(mut fut) = fut {
                vsched::logf(|| format!("poll task {id}"));
                let w = Waker::from(Arc::new(TaskWaker {
                    q: inner.q.clone(),
                    id,
                }));
                inner.polls.set(inner.polls.get() + 1);
                if inner.polls.get() < 20_000_000 {
                    crate::engine::progress::alive();
                }
                inner.q.polling.store(id, std::sync::atomic::Ordering::Relaxed);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    fut.as_mut().poll(&mut Context::from_waker(&w))
                }));
                inner.q.polling.store(usize::MAX, std::sync::atomic::Ordering::Relaxed);
                match r {
                    Ok(Poll::Pending) => inner.tasks.borrow_mut()[id] = Some(fut),
                    Ok(Poll::Ready(())) => drop(fut),
                    Err(_) => {
                        vsched::logf(|| format!("task {id} panicked"));
                        inner.panics.borrow_mut().push(id);
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(fut)));
                        if id == 0 {
                            panic!("the scenario itself panicked");
                        }
                    }
                }
            }
            if out.borrow().is_some() {
                break;
            }
            vsched::reset_poll_empty();
            if vsched::active() {
                let e = vsched::events();
                if since.0 != e {
                    since = (e, 0);
                }
                since.1 += 1;
                if since.1 > 8 * n + 40 {
                    since.1 = 0;
                    vsched::block_spin("tasks that wake themselves");
                } else {
                    vsched::point("task switch");
                }
            }
        } else if drive(&inner) {
            // a task of the runtime itself woke one of ours
        } else if !inner.idle.borrow().is_empty() {
            let why = if vsched::others_runnable() || !inner_alone(&inner) {
                vsched::block_idle(exec_key(owner), "waiting for quiescence")
            } else {
                vsched::Why::Idle
            };
            if why == vsched::Why::Idle {
                let w = inner.idle.borrow_mut().pop_front().unwrap();
                w.wake();
            }
        } else if vsched::active() && spare.get() > 0 {
            if vsched::block_last(exec_key(owner), "executor waiting") == vsched::Why::Idle {
                // nothing can happen unless time passes: what the scenario awaits may be about
                // to look again (a request that looks for its answer now and then)
                spare.set(spare.get() - 1);
                advance_ms(1);
                EXTRA.with(|e| e.set(e.get() + 1));
            }
        } else {
            vsched::block(exec_key(owner), "executor waiting");
        }
    }
    // end of the execution: every actor and task goes away
    for i in 0.. {
        let f = {
            let mut t = inner.tasks.borrow_mut();
            if i >= t.len() {
                break;
            }
            t[i].take()
        };
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(f)));
    }
    drop(local_guard);
    drop(guard);
    vsched::set_spawner(None);
    CUR.with(|c| *c.borrow_mut() = None);
    let v = out.borrow_mut().take().unwrap();
    v
}

/// Tasks the library gave to the runtime instead of to actix get their turn when ours rest.
fn drive(inner: &Rc<Inner>) -> bool {
    inner.rt.block_on(inner.local.run_until(async {
        for _ in 0..4 {
            tokio::task::yield_now().await;
        }
    }));
    !inner.q.q.lock().unwrap().0.is_empty()
}

fn inner_alone(_: &Rc<Inner>) -> bool {
    // nobody else is runnable: the ready queue is empty too, so this is quiescence
    true
}
