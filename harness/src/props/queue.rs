//! C09-C12: the verification queue, driven through the hooked `Manager` with jobs that the
//! scenario holds and releases.
use super::common::*;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::verif::{Manager, Runnable};
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
struct J {
    ip: usize,
    held: bool,
    /// ends in a panic
    panics: bool,
    /// how long it takes (ms)
    takes: u64,
    /// answer to the submission
    accepted: Option<bool>,
    call_seq: u64,
    accept_seq: u64,
    runs: u32,
    start_seq: u64,
    ended: bool,
    dropped: bool,
}
#[derive(Default)]
struct B {
    jobs: Vec<J>,
    seq: u64,
    running: usize,
    max_running: usize,
    order: Vec<usize>,
    closed: bool,
    fails: Vec<String>,
    /// addresses that are not 10.0.0.n
    names: Vec<String>,
}
#[derive(Clone, Default)]
struct Board(Arc<Mutex<B>>);
struct Job {
    b: Board,
    id: usize,
}
fn key(id: usize) -> usize {
    0x5000_0000_0000_0000 | id
}
/// what jobs say that are to panic
const TOLD: &str = "a job panics as it was told";
impl Runnable for Job {
    fn run(&self) {
        vsched::point("job start");
        {
            let mut g = self.b.0.lock().unwrap();
            g.seq += 1;
            let s = g.seq;
            let closed = g.closed;
            let j = &mut g.jobs[self.id];
            j.runs += 1;
            j.start_seq = s;
            let (runs, acc) = (j.runs, j.accepted);
            if runs > 1 {
                let m = format!("job {} is run {runs} times", self.id);
                g.fails.push(m);
            }
            if acc == Some(false) {
                let m = format!("refused job {} is run", self.id);
                g.fails.push(m);
            }
            if closed {
                let m = format!("job {} is started after the queue was dropped", self.id);
                g.fails.push(m);
            }
            g.order.push(self.id);
            g.running += 1;
            g.max_running = g.max_running.max(g.running);
            vsched::logf(|| format!("job {} (address {}) starts", self.id, g.jobs[self.id].ip));
        }
        loop {
            if !self.b.0.lock().unwrap().jobs[self.id].held {
                break;
            }
            vsched::block(key(self.id), "job held by the scenario");
        }
        let takes = self.b.0.lock().unwrap().jobs[self.id].takes;
        if takes > 0 {
            vsched::block_timed(key(self.id), "job takes its time", takes * 1_000_000);
        }
        vsched::point("job end");
        let mut g = self.b.0.lock().unwrap();
        g.jobs[self.id].ended = true;
        g.running -= 1;
        vsched::logf(|| format!("job {} ends", self.id));
        if g.jobs[self.id].panics {
            drop(g);
            panic!("{TOLD}");
        }
    }
}
impl Drop for Job {
    fn drop(&mut self) {
        self.b.0.lock().unwrap().jobs[self.id].dropped = true;
    }
}
impl Board {
    fn address(&self, ip: usize) -> String {
        self.0.lock().unwrap().names.get(ip).cloned().unwrap_or_else(|| format!("10.0.0.{ip}"))
    }
    fn job(&self, ip: usize, held: bool) -> (usize, Box<dyn Runnable>) {
        let mut g = self.0.lock().unwrap();
        let id = g.jobs.len();
        g.seq += 1;
        let g0 = g.seq;
        g.jobs.push(J {
            ip,
            held,
            panics: false,
            takes: 0,
            accepted: None,
            call_seq: g0,
            accept_seq: 0,
            runs: 0,
            start_seq: 0,
            ended: false,
            dropped: false,
        });
        drop(g);
        (id, Box::new(Job { b: self.clone(), id }))
    }
    fn answered(&self, id: usize, ok: bool) {
        let mut g = self.0.lock().unwrap();
        g.seq += 1;
        let s = g.seq;
        let j = &mut g.jobs[id];
        j.accepted = Some(ok);
        j.accept_seq = s;
        if !ok && j.runs > 0 {
            g.fails.push(format!("refused job {id} was run"));
        }
    }
    fn release(&self, id: usize) {
        self.0.lock().unwrap().jobs[id].held = false;
        vsched::notify(key(id), usize::MAX);
    }
    fn snap(&self) -> Vec<J> {
        self.0.lock().unwrap().jobs.clone()
    }
    fn running(&self) -> Vec<usize> {
        let v = self.snap();
        (0..v.len()).filter(|&i| v[i].runs > 0 && !v[i].ended).collect()
    }
    fn waiting_ips(&self) -> BTreeSet<usize> {
        self.snap()
            .iter()
            .filter(|j| j.accepted == Some(true) && j.runs == 0)
            .map(|j| j.ip)
            .collect()
    }
    fn flush(&self, c: &Ctx) {
        for f in std::mem::take(&mut self.0.lock().unwrap().fails) {
            c.fail(f);
        }
    }
    /// lets everything end, and drops the queue
    fn end(&self, m: Manager) {
        for id in 0..self.snap().len() {
            self.release(id);
        }
        drop(m);
    }
    fn close(&self) {
        self.0.lock().unwrap().closed = true;
    }
    fn desc(&self) -> String {
        let g = self.0.lock().unwrap();
        format!(
            "order {:?} answers {:?}",
            g.order,
            g.jobs.iter().map(|j| j.accepted).collect::<Vec<_>>()
        )
    }
    async fn submit_bad(&self, m: &Manager, ip: usize) -> (usize, Result<(), CaptchaError>) {
        let (id, job) = self.job(ip, true);
        self.0.lock().unwrap().jobs[id].panics = true;
        let r = m.add(self.address(ip), job).await;
        self.answered(id, r.is_ok());
        (id, r)
    }
    async fn submit_long(&self, m: &Manager, ip: usize, takes: u64) -> (usize, Result<(), CaptchaError>) {
        let (id, job) = self.job(ip, false);
        self.0.lock().unwrap().jobs[id].takes = takes;
        let r = m.add(self.address(ip), job).await;
        self.answered(id, r.is_ok());
        (id, r)
    }
    /// one submission, recorded
    async fn submit(&self, m: &Manager, ip: usize, held: bool) -> (usize, Result<(), CaptchaError>) {
        let (id, job) = self.job(ip, held);
        let r = m.add(self.address(ip), job).await;
        self.answered(id, r.is_ok());
        (id, r)
    }
}

/// what has to hold whenever nothing moves
fn quiescent(c: &Ctx, b: &Board, workers: usize, what: &str) {
    b.flush(c);
    let v = b.snap();
    let open = v.iter().filter(|j| j.accepted == Some(true) && !j.ended).count();
    let running = b.running().len();
    c.check(running <= workers, || format!("{running} jobs run on {workers} threads {what}"));
    c.check(running == open.min(workers), || {
        format!("{open} accepted jobs are open, {workers} threads, but {running} run {what}: {}", b.desc())
    });
}
/// order of starts, for histories with one event at a time
fn order_ok(c: &Ctx, b: &Board) {
    let v = b.snap();
    let order = b.0.lock().unwrap().order.clone();
    for (n, &id) in order.iter().enumerate() {
        let j = &v[id];
        // first in, first out per address
        for (o, k) in v.iter().enumerate() {
            if o != id && k.ip == j.ip && k.accepted == Some(true) && k.accept_seq < j.call_seq {
                c.check(k.runs > 0 && k.start_seq < j.start_seq, || {
                    format!("job {id} of address {} overtook job {o}: {order:?}", j.ip)
                });
            }
        }
        // turns: since the previous start of the same address, every address that was
        // waiting all the time was served
        if let Some(&p) = order[..n].iter().rev().find(|&&p| v[p].ip == j.ip) {
            let (s1, s2) = (v[p].start_seq, j.start_seq);
            let others: BTreeSet<usize> = v.iter().map(|k| k.ip).filter(|&i| i != j.ip).collect();
            for i in others {
                let waited = v.iter().any(|k| {
                    k.ip == i
                        && k.accepted == Some(true)
                        && k.accept_seq < s1
                        && (k.runs == 0 || k.start_seq > s2)
                });
                let served = v
                    .iter()
                    .any(|k| k.ip == i && k.runs > 0 && k.start_seq > s1 && k.start_seq < s2);
                c.check(!waited || served, || {
                    format!(
                        "address {} got jobs {p} and {id} while address {i} waited all along: {order:?} of addresses {:?}",
                        j.ip,
                        order.iter().map(|&x| v[x].ip).collect::<Vec<_>>()
                    )
                });
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Run,
    Admission,
    Order,
}

/// Every sequence of `depth` events: a submission of one of `ips` addresses, or the end of
/// one of the running jobs; the world settles after each event.
fn sequences(name: &str, what: What, workers: usize, limit: usize, ips: usize, depth: usize, bound: u32) -> Scenario {
    Scenario::new(
        format!("{name}-w{workers}-l{limit}-a{ips}-d{depth}-b{bound}"),
        bound,
        move |ctx: Ctx| {
            exec::block_on(async move {
                let b = Board::default();
                let m = Manager::new(workers, limit);
                exec::idle().await;
                let mut hist = String::new();
                let mut seen_ips = 0;
                for _ in 0..depth {
                    let run = b.running();
                    // addresses are interchangeable: a new one is always the next number
                    let nip = (seen_ips + 1).min(ips);
                    let k = pick(nip + run.len());
                    if k < nip {
                        seen_ips = seen_ips.max(k + 1);
                        let waiting = b.waiting_ips();
                        let (id, r) = b.submit(&m, k, true).await;
                        hist += &format!("add{k}:{} ", if r.is_ok() { "ok" } else { "no" });
                        ctx.obs(format!("submit job {id} of {k}: {}", short(&r)));
                        if what == What::Admission {
                            let full = waiting.len() == limit;
                            ctx.check(r.is_ok() != full, || {
                                format!("{} with addresses {waiting:?} waiting and limit {limit}: {hist}", short(&r))
                            });
                        }
                        if let Err(e) = &r {
                            ctx.check(matches!(e, CaptchaError::QueueFull), || format!("refused with {e:?}: {hist}"));
                        }
                    } else {
                        let id = run[k - nip];
                        hist += &format!("end{id} ");
                        ctx.obs(format!("job {id} ends"));
                        b.release(id);
                    }
                    exec::idle().await;
                    if what == What::Run {
                        quiescent(&ctx, &b, workers, &format!("after {hist}"));
                    }
                }
                // everything ends
                loop {
                    let run = b.running();
                    if run.is_empty() {
                        break;
                    }
                    b.release(run[0]);
                    exec::idle().await;
                    if what == What::Run {
                        quiescent(&ctx, &b, workers, &format!("at the end of {hist}"));
                    }
                }
                ctx.obs(b.desc());
                match what {
                    What::Run => {
                        b.flush(&ctx);
                        for (i, j) in b.snap().iter().enumerate() {
                            let want = (j.accepted == Some(true) && workers > 0) as u32;
                            ctx.check(j.runs == want, || format!("job {i} ran {} times after {hist}", j.runs));
                        }
                    }
                    What::Admission => {
                        // recovery: with nothing waiting any number of new addresses is served
                        if workers > 0 && limit > 0 {
                            for n in 0..limit + 2 {
                                let (_, r) = b.submit(&m, 100 + n, false).await;
                                ctx.check(r.is_ok(), || format!("idle queue refuses address {n} after {hist}"));
                                exec::idle().await;
                            }
                        }
                    }
                    What::Order => order_ok(&ctx, &b),
                }
                drop(m);
            });
        },
    )
    .about(format!("all sequences of {depth} events (submission from one of {ips} addresses, end of a running job), {workers} threads, limit {limit}"))
    .shard(if depth > 4 { 3 } else { 2 })
}

/// Jobs that panic among others.
fn panicking(name: &str, workers: usize, depth: usize, bound: u32) -> Scenario {
    Scenario::new(format!("{name}-panicking-w{workers}-d{depth}-b{bound}"), bound, move |ctx: Ctx| {
        exec::block_on(async move {
            let b = Board::default();
            let m = Manager::new(workers, 5);
            exec::idle().await;
            let mut hist = String::new();
            for _ in 0..depth {
                let run = b.running();
                let k = pick(3 + run.len());
                match k {
                    0 | 1 => {
                        let (_, r) = b.submit(&m, k, true).await;
                        hist += &format!("add{k} ");
                        ctx.check(r.is_ok(), || format!("{}: {hist}", short(&r)));
                    }
                    2 => {
                        let (_, r) = b.submit_bad(&m, 0).await;
                        hist += "bad ";
                        ctx.check(r.is_ok(), || format!("{}: {hist}", short(&r)));
                    }
                    k => {
                        hist += &format!("end{} ", run[k - 3]);
                        b.release(run[k - 3]);
                    }
                }
                exec::idle().await;
                quiescent(&ctx, &b, workers, &format!("after {hist}"));
            }
            if pick(2) == 1 {
                // the queue goes away; what runs has to end first
                for id in 0..b.snap().len() {
                    b.release(id);
                }
                hist += "drop";
            } else {
                while let Some(&id) = b.running().first() {
                    b.release(id);
                    exec::idle().await;
                    quiescent(&ctx, &b, workers, &format!("at the end of {hist}"));
                }
                for (i, j) in b.snap().iter().enumerate() {
                    ctx.check(j.runs == 1, || format!("job {i} ran {} times after {hist}", j.runs));
                }
            }
            drop(m);
            b.close();
            b.flush(&ctx);
            for (i, j) in b.snap().iter().enumerate() {
                ctx.check(j.runs == j.ended as u32, || format!("job {i} of {hist} still runs after the drop"));
            }
            ctx.obs(hist);
        });
    })
    .tolerates(TOLD)
    .about(format!("all sequences of {depth} events (submissions of two addresses, submissions that panic when run, ends of jobs), then the drop of the queue at once or after all jobs; {workers} threads"))
    .shard(2)
}

/// All interleavings of submissions made at once by tasks of one executor and one more thread.
fn burst(name: &str, what: What, workers: usize, limit: usize, ips: &'static [usize], threads: bool, hold: bool, bound: u32) -> Scenario {
    Scenario::new(
        format!("{name}-burst-w{workers}-l{limit}-{ips:?}{}{}-b{bound}", if threads { "-2exec" } else { "" }, if hold { "-held" } else { "" }),
        bound,
        move |ctx: Ctx| {
            exec::block_on(async move {
                let b = Board::default();
                let m = Arc::new(Manager::new(workers, limit));
                let join = Join::new();
                if what == What::Order {
                    // the only thread is busy: everything that follows has to wait
                    let (_, r) = b.submit(&m, 99, true).await;
                    ctx.check(r.is_ok(), || "idle queue refuses".into());
                    exec::idle().await;
                }
                let split = if threads { ips.len() / 2 } else { ips.len() };
                let mut other = None;
                if threads {
                    let (b, m) = (b.clone(), m.clone());
                    let (tx, rx) = tokio::sync::oneshot::channel();
                    let h = std::thread::spawn(move || {
                        exec::block_on(async move {
                            let mut v = vec![];
                            for &ip in &ips[split..] {
                                v.push(b.submit(&m, ip, hold).await);
                            }
                            drop(m);
                            let _ = tx.send(v);
                        })
                    });
                    other = Some((rx, h));
                }
                for &ip in &ips[..split] {
                    let (b, m) = (b.clone(), m.clone());
                    join.go(async move { b.submit(&m, ip, hold).await });
                }
                exec::explore_tasks(true);
                exec::idle().await;
                exec::explore_tasks(false);
                let mut res: Vec<_> = Vec::new();
                for r in join.settle().await {
                    match r {
                        Some(r) => res.push(r),
                        None => ctx.fail("a submission is not answered"),
                    }
                }
                if let Some((rx, h)) = other {
                    match rx.await {
                        Ok(v) => res.extend(v),
                        Err(_) => ctx.fail("the second thread's submissions are not answered"),
                    }
                    exec::idle().await;
                    let _ = h.join();
                }
                let refused = res.iter().filter(|r| r.1.is_err()).count();
                ctx.obs(b.desc());
                for (_, r) in &res {
                    if let Err(e) = r {
                        ctx.check(matches!(e, CaptchaError::QueueFull), || format!("refused with {e:?}"));
                    }
                }
                if what == What::Run {
                    quiescent(&ctx, &b, workers, "after the burst");
                }
                if what == What::Admission {
                    let w = b.waiting_ips();
                    ctx.check(w.len() <= limit, || format!("addresses {w:?} wait, limit {limit}"));
                    let distinct: BTreeSet<_> = ips.iter().collect();
                    // a refusal needs `limit` other submissions that were accepted
                    if refused > 0 {
                        ctx.check(distinct.len() >= limit.min(ips.len()) && res.iter().filter(|r| r.1.is_ok()).count() >= limit.min(ips.len()), || {
                            format!("{refused} refusals with too little accepted work: {}", b.desc())
                        });
                    }
                }
                if hold {
                    loop {
                        let run = b.running();
                        if run.is_empty() {
                            break;
                        }
                        b.release(run[0]);
                        exec::idle().await;
                        if what == What::Run {
                            quiescent(&ctx, &b, workers, "while jobs end");
                        }
                    }
                }
                b.flush(&ctx);
                if what == What::Run {
                    for (i, j) in b.snap().iter().enumerate() {
                        let want = (j.accepted == Some(true) && workers > 0) as u32;
                        ctx.check(j.runs == want, || format!("job {i} ran {} times: {}", j.runs, b.desc()));
                    }
                    let mx = b.0.lock().unwrap().max_running;
                    ctx.check(mx <= workers, || format!("{mx} jobs at a time on {workers} threads"));
                }
                if what == What::Admission && limit > 0 {
                    for n in 0..limit + 2 {
                        let (_, r) = b.submit(&m, 100 + n, false).await;
                        ctx.check(r.is_ok(), || format!("idle queue refuses address {n}: {}", b.desc()));
                        exec::idle().await;
                    }
                }
                if what == What::Order && workers == 1 {
                    order_ok(&ctx, &b);
                }
                drop(m);
            });
        },
    )
    .about(format!("{} submissions at once from addresses {ips:?} ({workers} threads, limit {limit}), every interleaving up to {bound} deviations", ips.len()))
}

/// Many jobs, addresses and threads, one event at a time.
fn crowd(name: &str, what: What, n: usize) -> Scenario {
    Scenario::new(format!("{name}-crowd-{n}"), 0, move |ctx: Ctx| {
        exec::block_on(async move {
            let workers = [1usize, 4, 16, 40][pick(4)];
            let limit = [3usize, 1000][pick(2)];
            let ips = [2usize, 7, n][pick(3)];
            // who comes when, and which of the running jobs ends
            let pattern = pick(4);
            let newest_ends = pick(2) == 1;
            let b = Board::default();
            let m = Manager::new(workers, limit);
            exec::idle().await;
            let text = format!("{n} jobs of {ips} addresses (pattern {pattern}), {workers} threads, limit {limit}");
            let end_one = |b: &Board| {
                let run = b.running();
                if let Some(&id) = if newest_ends { run.last() } else { run.first() } {
                    b.release(id);
                }
                run.len()
            };
            for i in 0..n {
                let ip = match pattern {
                    0 => i % ips,                                    // in turns
                    1 => i * ips / n,                                // one after the other
                    2 => if i % 3 == 0 { (i / 3) % ips } else { 0 }, // a flood and some others
                    _ => (i * i + i / 5) % ips,
                };
                let waiting = b.waiting_ips();
                let (_, r) = b.submit(&m, ip, true).await;
                exec::idle().await;
                if what == What::Admission {
                    let full = waiting.len() == limit;
                    ctx.check(r.is_ok() != full, || format!("{text}: job {i} of {ip}: {} with {} addresses waiting", short(&r), waiting.len()));
                }
                if what == What::Run {
                    quiescent(&ctx, &b, workers, &text);
                }
                if i % 4 == 3 {
                    end_one(&b);
                    exec::idle().await;
                }
                if ctx.failed() {
                    return;
                }
            }
            while end_one(&b) > 0 {
                exec::idle().await;
                if what == What::Run {
                    quiescent(&ctx, &b, workers, &text);
                }
            }
            b.flush(&ctx);
            match what {
                What::Run => {
                    for (i, j) in b.snap().iter().enumerate() {
                        let want = (j.accepted == Some(true)) as u32;
                        ctx.check(j.runs == want, || format!("{text}: job {i} ran {} times", j.runs));
                    }
                }
                What::Admission => {
                    for n in 0..limit.min(50) + 2 {
                        let (_, r) = b.submit(&m, 1000 + n, false).await;
                        ctx.check(r.is_ok(), || format!("{text}: then the idle queue refuses address {n}"));
                        exec::idle().await;
                    }
                }
                What::Order => order_ok(&ctx, &b),
            }
            drop(m);
            ctx.obs(text);
        })
    })
    .steps(10_000 * n)
    .about(format!("{n} jobs of 2, 7 or {n} addresses in 4 patterns on 1, 4, 16 or 40 threads with a limit of 3 or 1000, in the order of their coming or the reverse ending"))
    .shard(3)
}

/// As many threads work as there are, however many that is.
fn threads(max: usize) -> Scenario {
    let sizes: Vec<usize> = [5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513]
        .into_iter()
        .filter(|n| *n <= max)
        .collect();
    Scenario::new(format!("run-threads-{max}"), 0, move |ctx: Ctx| {
        let sizes = sizes.clone();
        exec::block_on(async move {
            let w = sizes[pick(sizes.len())];
            let ips = [1, 3, 1000][pick(3)];
            let b = Board::default();
            let m = Manager::new(w, 2000);
            let text = format!("{w} threads, {ips} addresses");
            for i in 0..w + 5 {
                let (_, r) = b.submit(&m, i % ips, true).await;
                ctx.check(r.is_ok(), || format!("{text}: {}", short(&r)));
                exec::idle().await;
                quiescent(&ctx, &b, w, &text);
                if ctx.failed() {
                    return b.end(m);
                }
            }
            for _ in 0..w + 5 {
                if let Some(&id) = b.running().first() {
                    b.release(id);
                }
                exec::idle().await;
                quiescent(&ctx, &b, w, &text);
            }
            b.flush(&ctx);
            for (i, j) in b.snap().iter().enumerate() {
                ctx.check(j.runs == 1 && j.ended, || format!("{text}: job {i} ran {} times", j.runs));
            }
            ctx.obs(text);
            b.end(m)
        })
    })
    .steps(10_000_000)
    .about(format!("5-{max} threads, one job after the other for each of them and five more, then all end one by one"))
    .shard(1)
}
/// Two addresses that are alike.
fn addresses(name: &str, what: What) -> Scenario {
    Scenario::new(format!("{name}-addresses"), 0, move |ctx: Ctx| {
        exec::block_on(async move {
            let (x, y) = pick_addresses();
            let limit = 1 + pick(3);
            let who = [[0usize, 0, 1, 0], [0, 1, 0, 1]][pick(2)];
            let b = Board::default();
            b.0.lock().unwrap().names = vec![x.clone(), y.clone(), "somebody else".into(), "yet another one".into()];
            let m = Manager::new(1, limit);
            exec::idle().await;
            let text = format!("addresses {x:?} and {y:?}, limit {limit}");
            // the thread is busy, they come in, then others
            for ip in [2].into_iter().chain(who).chain([3, 2]) {
                let waiting = b.waiting_ips();
                let (_, r) = b.submit(&m, ip, true).await;
                exec::idle().await;
                let full = waiting.len() == limit;
                if what == What::Admission {
                    ctx.check(r.is_ok() != full, || format!("{text}: {} for address {ip} with {waiting:?} waiting", short(&r)));
                }
                if what == What::Run {
                    quiescent(&ctx, &b, 1, &text);
                }
            }
            // one of them comes back when its job was taken up
            let again = if limit == 3 { pick(3) } else { 2 };
            let mut times = 2;
            while let Some(&id) = b.running().first() {
                if again < 2 && b.snap()[id].ip == again && times > 0 {
                    times -= 1;
                    let waiting = b.waiting_ips();
                    let (_, r) = b.submit(&m, again, true).await;
                    exec::idle().await;
                    let full = waiting.len() == limit;
                    if what == What::Admission {
                        ctx.check(r.is_ok() != full, || format!("{text}: {} for address {again} with {waiting:?} waiting", short(&r)));
                    }
                }
                b.release(id);
                exec::idle().await;
                if what == What::Run {
                    quiescent(&ctx, &b, 1, &text);
                }
            }
            b.flush(&ctx);
            match what {
                What::Run => {
                    for (i, j) in b.snap().iter().enumerate() {
                        let want = (j.accepted == Some(true)) as u32;
                        ctx.check(j.runs == want, || format!("{text}: job {i} ran {} times", j.runs));
                    }
                }
                What::Admission => {}
                What::Order => order_ok(&ctx, &b),
            }
            ctx.obs(format!("{text}: {}", b.desc()));
            b.end(m)
        })
    })
    .about(format!("{}, and every ordered pair of {} addresses (IPv4, IPv6, with ports, mapped, forwarded…): jobs of both waiting with those of two others, limits 1-3, then they end one by one; one of them submits again meanwhile, or none", pairs(), ips().len()))
    .shard(1)
}
/// Limits of all sizes: as many addresses as it takes, up to `max`, and some more.
fn limits(max: usize) -> Scenario {
    Scenario::new(format!("admit-limits-{max}"), 0, move |ctx: Ctx| {
        exec::block_on(async move {
            const L: [usize; 34] = [
                6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 1024, 1025, 65_535, 65_536, 1 << 32, (1 << 32) + 1, 1 << 62, usize::MAX,
            ];
            let limit = L[pick(L.len())];
            let workers = [1usize, 3][pick(2)];
            let twice = pick(2) == 1;
            let b = Board::default();
            let m = Manager::new(workers, limit);
            exec::idle().await;
            let text = format!("{workers} threads, limit {limit}");
            let mut ip = 0;
            for _ in 0..workers {
                let (_, r) = b.submit(&m, ip, true).await;
                ctx.check(r.is_ok(), || format!("{text}: the idle queue refuses work: {}", short(&r)));
                exec::idle().await;
                ip += 1;
            }
            let mut waiting = 0;
            while waiting < limit && waiting < max {
                for again in 0..1 + (twice && waiting % 3 == 1) as usize {
                    // a second job of an address in line may be refused when the line is full
                    let full = again > 0 && waiting + 1 == limit;
                    let (_, r) = b.submit(&m, ip, true).await;
                    if !ctx.check(r.is_ok() != full, || format!("{text}: {} with {} addresses waiting", short(&r), waiting + again)) {
                        return b.end(m);
                    }
                }
                waiting += 1;
                ip += 1;
            }
            for round in 0..4 {
                exec::idle().await;
                for i in [ip, ip + 1, ip - 1] {
                    let waiting = b.waiting_ips().len();
                    let (_, r) = b.submit(&m, i, true).await;
                    exec::idle().await;
                    let full = waiting == limit;
                    ctx.check(r.is_ok() != full, || format!("{text}, round {round}: {} with {waiting} addresses waiting", short(&r)));
                }
                ip += 2;
                for id in b.running().into_iter().take(1 + round) {
                    b.release(id);
                }
            }
            b.flush(&ctx);
            ctx.obs(format!("{text} {twice}"));
            b.end(m)
        })
    })
    .steps(10_000 * max)
    .about(format!("limits around powers of two and round numbers up to 2^64-1 filled up, though with no more than {max} addresses, with one or two jobs each; then work comes and goes"))
    .shard(1)
}

pub fn c09(t: Tier) -> Vec<Scenario> {
    let n = "run";
    let mut v = vec![crowd(n, What::Run, t.or(1100, 3000)), addresses(n, What::Run), threads(t.or(300, 513))];
    for w in 1..=3 {
        v.push(sequences(n, What::Run, w, 5, 3, t.or(if w == 1 { 8 } else { 7 }, 9), 0));
        v.push(sequences(n, What::Run, w, 1, 3, t.or(6, 8), 0));
    }
    v.push(sequences(n, What::Run, 1, 5, 2, t.or(3, 4), 2));
    v.push(sequences(n, What::Run, 2, 5, 2, t.or(3, 4), 2));
    for (w, ips) in [
        (1, &[0usize, 0][..]),
        (1, &[0, 1]),
        (1, &[0, 1, 0]),
        (2, &[0, 1]),
        (2, &[0, 0, 1]),
        (3, &[0, 1, 0]),
    ] {
        v.push(burst(n, What::Run, w, 5, ips, false, false, t.or(3, 4)));
    }
    v.push(burst(n, What::Run, 2, 5, &[0, 0, 1, 1, 2], false, false, t.or(2, 3)));
    v.push(burst(n, What::Run, 2, 1, &[0, 1, 2], false, true, t.or(3, 4)));
    v.push(burst(n, What::Run, 1, 5, &[0, 1], true, false, t.or(3, 4)));
    v.push(burst(n, What::Run, 2, 5, &[0, 1, 0, 1], true, false, t.or(2, 3)));
    for w in 1..=3 {
        v.push(panicking(n, w, t.or(6, 7), 0));
        v.push(panicking(n, w, t.or(3, 4), 1));
    }
    v
}

pub fn c10(t: Tier) -> Vec<Scenario> {
    let n = "admit";
    let mut v = vec![crowd(n, What::Admission, t.or(1100, 3000)), addresses(n, What::Admission), super::system::one_address(4, false, t.or(1, 2)), super::system::one_address(3, true, t.or(1, 2)), limits(t.or(66_000, 140_000))];
    for w in 1..=2 {
        for l in 0..=3 {
            v.push(sequences(n, What::Admission, w, l, 4, t.or(7, 9), 0));
        }
    }
    v.push(sequences(n, What::Admission, 0, 2, 3, 6, 0));
    v.push(sequences(n, What::Admission, 1, 1, 2, t.or(3, 4), 2));
    for (w, l, ips) in [
        (1, 1, &[0usize, 1, 2][..]),
        (1, 2, &[0, 1, 2]),
        (2, 1, &[0, 1, 2]),
        (1, 1, &[0, 1, 0, 1]),
    ] {
        v.push(burst(n, What::Admission, w, l, ips, false, true, t.or(3, 4)));
        v.push(burst(n, What::Admission, w, l, ips, false, false, t.or(2, 3)));
    }
    v.push(burst(n, What::Admission, 1, 1, &[0, 1, 2], true, false, t.or(3, 4)));
    v
}

pub fn c11(t: Tier) -> Vec<Scenario> {
    let n = "order";
    let mut v = vec![crowd(n, What::Order, t.or(1100, 3000)), addresses(n, What::Order)];
    for w in 1..=2 {
        v.push(sequences(n, What::Order, w, 5, 3, t.or(9, 10), 0));
        v.push(sequences(n, What::Order, w, 2, 3, t.or(8, 10), 0));
    }
    v.push(sequences(n, What::Order, 1, 5, 4, t.or(8, 9), 0));
    v.push(sequences(n, What::Order, 1, 5, 2, t.or(4, 5), 2));
    v.push(burst(n, What::Order, 1, 5, &[0, 0, 1], false, true, t.or(3, 4)));
    v.push(burst(n, What::Order, 1, 5, &[0, 0, 1, 1], false, true, t.or(3, 3)));
    v.push(burst(n, What::Order, 1, 5, &[0, 0, 0, 1, 2], false, true, t.or(2, 3)));
    v
}

/// The queue is dropped while jobs run and wait.
fn shutdown(workers: usize, max_jobs: usize, settle: bool, releaser: bool, abandon: bool, bound: u32) -> Scenario {
    Scenario::new(
        format!(
            "drop-w{workers}-j{max_jobs}{}{}{}-b{bound}",
            if settle { "-settled" } else { "" },
            if releaser { "-held" } else { "" },
            if abandon { "-abandoned" } else { "" }
        ),
        bound,
        move |ctx: Ctx| {
            exec::block_on(async move {
                let b = Board::default();
                let n = pick(max_jobs + 1);
                let same = pick(2) == 1;
                let m = Manager::new(workers, 1000);
                let mut ids = vec![];
                for i in 0..n {
                    let ip = if same { 0 } else { i };
                    if abandon && i + 1 == n {
                        // the submitter goes away right after handing its work in
                        let (id, job) = b.job(ip, releaser);
                        let mut f = Box::pin(m.add(format!("10.0.0.{ip}"), job));
                        std::future::poll_fn(|cx| {
                            let _ = f.as_mut().poll(cx);
                            std::task::Poll::Ready(())
                        })
                        .await;
                        drop(f);
                        ids.push(id);
                    } else {
                        let (id, r) = b.submit(&m, ip, releaser).await;
                        ctx.check(r.is_ok(), || format!("submission refused: {}", short(&r)));
                        ids.push(id);
                    }
                }
                if settle {
                    exec::idle().await;
                }
                let rel = releaser.then(|| {
                    let b = b.clone();
                    std::thread::spawn(move || {
                        vsched::point("release jobs");
                        for id in ids {
                            b.release(id);
                            vsched::point("release jobs");
                        }
                    })
                });
                let before: Vec<usize> = b.0.lock().unwrap().order.clone();
                drop(m);
                b.close();
                let v = b.snap();
                ctx.obs(format!("started before the drop {before:?}, in the end {}", b.desc()));
                for (i, j) in v.iter().enumerate() {
                    ctx.check(j.runs == 0 || j.ended, || format!("job {i} still runs after the drop"));
                    ctx.check(j.runs <= 1, || format!("job {i} ran {} times", j.runs));
                }
                if let Some(r) = rel {
                    let _ = r.join();
                }
                exec::idle().await;
                b.flush(&ctx);
                for (i, j) in b.snap().iter().enumerate() {
                    ctx.check(j.runs == v[i].runs, || format!("job {i} was started after the drop"));
                }
            });
        },
    )
    .about(format!("drop of a queue of {workers} threads with 0..{max_jobs} jobs of one or several addresses, every interleaving up to {bound} deviations"))
}

/// The queue is dropped while jobs run that take long.
fn long_jobs(workers: usize, bound: u32) -> Scenario {
    Scenario::new(format!("drop-long-w{workers}-b{bound}"), bound, move |ctx: Ctx| {
        exec::block_on(async move {
            let b = Board::default();
            let takes = [30, 1500, 20_000, 100_000][pick(4)];
            let n = 1 + pick(workers + 2);
            let m = Manager::new(workers, 1000);
            for i in 0..n {
                let ip = if i < workers { i } else { 0 };
                let (_, r) = b.submit_long(&m, ip, takes + 7 * i as u64).await;
                ctx.check(r.is_ok(), || format!("submission refused: {}", short(&r)));
            }
            if pick(2) == 1 {
                exec::idle().await;
            }
            drop(m);
            b.close();
            let v = b.snap();
            ctx.obs(format!("{n} jobs of {takes} ms: {}", b.desc()));
            for (i, j) in v.iter().enumerate() {
                ctx.check(j.runs == 0 || j.ended, || format!("job {i} of {n}, which takes {takes} ms, still runs after the drop"));
            }
            exec::idle().await;
            b.flush(&ctx);
            for (i, j) in b.snap().iter().enumerate() {
                ctx.check(j.runs == v[i].runs, || format!("job {i} was started after the drop"));
            }
        });
    })
    .steps(1_000_000)
    .about(format!("drop of a queue of {workers} threads with 1..{} jobs that take 30 ms, 1.5 s, 20 s or 100 s, every interleaving up to {bound} deviations", workers + 2))
}

/// The queue is dropped while each of many threads works, one of them for long.
fn one_long_job(workers: usize) -> Scenario {
    Scenario::new(format!("drop-one-long-w{workers}"), 0, move |ctx: Ctx| {
        exec::block_on(async move {
            let b = Board::default();
            let long = pick(workers);
            let m = Manager::new(workers, 1000);
            for i in 0..workers {
                let (_, r) = b.submit_long(&m, i, if i == long { 20_000 } else { 30 }).await;
                ctx.check(r.is_ok(), || format!("submission refused: {}", short(&r)));
            }
            exec::idle().await;
            drop(m);
            b.close();
            let v = b.snap();
            ctx.obs(format!("{long}"));
            for (i, j) in v.iter().enumerate() {
                ctx.check(j.runs == 1 && j.ended, || format!("job {i} of {workers}, one for each thread, of which {long} takes long: {} after the drop", if j.runs == 0 { "not started" } else { "still runs" }));
            }
            exec::idle().await;
            b.flush(&ctx);
        });
    })
    .steps(1_000_000)
    .about(format!("drop of a queue whose {workers} threads all work, each of them in turn for long"))
}

pub fn c12(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for w in 1..=3 {
        v.push(long_jobs(w, t.or(1, 2)));
    }
    for w in 0..=3 {
        v.push(shutdown(w, 4, false, false, false, t.or(1, 2)));
        v.push(shutdown(w, 4, true, false, false, t.or(1, 2)));
        v.push(shutdown(w, 3, true, true, false, t.or(2, 3)));
        v.push(shutdown(w, 3, false, true, false, t.or(1, 2)));
        v.push(shutdown(w, 2, false, false, true, t.or(2, 3)));
    }
    for w in 1..=2 {
        v.push(panicking("drop", w, t.or(5, 6), 0));
        v.push(panicking("drop", w, t.or(3, 4), 1));
    }
    v.push(shutdown(8, 12, false, false, false, 0));
    for w in [12, 24, 40, 72] {
        v.push(shutdown(w, w + 2, true, w % 3 == 0, false, 0));
    }
    for w in [3, 10, 33, 72, t.or(130, 300)] {
        v.push(one_long_job(w));
    }
    v.push(shutdown(1, 40, true, true, false, 0));
    v.push(shutdown(4, 40, true, true, false, 0));
    v.push(shutdown(1, 2, false, false, false, t.or(4, 5)));
    v.push(shutdown(2, 2, false, false, false, t.or(3, 4)));
    v.push(shutdown(1, 3, false, false, false, t.or(3, 4)));
    v
}
use std::future::Future;
