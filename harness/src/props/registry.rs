//! C06, C13-C16: the embedded registry and its counters, real actors on the controlled
//! executor, compared with a model of sites.
use super::common::*;
use actix::prelude::*;
use libmcaptcha::errors::{CaptchaError, CaptchaResult};
use libmcaptcha::master::embedded::counter::GetCurrentVisitorCount;
use libmcaptcha::master::embedded::master::{GetSite, Master};
use libmcaptcha::MCaptcha;
use std::collections::{BTreeMap, HashMap};

type Model = BTreeMap<String, MSite>;

fn model_views(m: &mut Model, now: u64) -> BTreeMap<String, View> {
    m.iter_mut()
        .map(|(k, s)| {
            s.expire(now);
            (k.clone(), s.view())
        })
        .collect()
}
async fn compare(c: &Ctx, addr: &Addr<Master>, m: &mut Model, now: u64, hist: &str) -> bool {
    let want = model_views(m, now);
    match views(addr).await {
        Ok(got) => {
            c.state(hash(&got));
            c.check(got == want, || {
                format!("after {hist} (t={now} ms) the registry has {got:?}, expected {want:?}")
            })
        }
        Err(e) => {
            c.fail(format!("snapshot fails after {hist}: {e:?}"));
            false
        }
    }
}

fn cfg1() -> Cfg {
    cfg(&[(2, 10), (4, 20)], 1)
}
fn cfg2() -> Cfg {
    cfg(&[(1, 5), (2, 6), (3, 70)], 2)
}

// ---- C06 -----------------------------------------------------------------------------
fn leaky(depth: usize, counter_read: bool) -> Scenario {
    Scenario::new(
        format!("visits-d{depth}{}", if counter_read { "-counter" } else { "" }),
        0,
        move |c: Ctx| {
            exec::block_on(async move {
                let clock = Clock::default();
                let addr = Master::new(100_000).start();
                let mut m = Model::new();
                for (n, g) in [("a", cfg1()), ("b", cfg2())] {
                    let r = add(&addr, n, &g).await;
                    c.check(r.is_ok(), || short(&r));
                    m.insert(n.into(), MSite::new(&g));
                }
                exec::idle().await;
                let mut hist = String::new();
                for _ in 0..depth {
                    match pick(3) {
                        k @ (0 | 1) => {
                            let n = ["a", "b"][k];
                            hist += &format!("visit {n}; ");
                            let r = visit(&addr, n).await;
                            let want = m.get_mut(n).unwrap().visit(clock.now());
                            c.check(r == Ok(Some(want)), || format!("{hist}: {} instead of {want:?}", short(&r)));
                        }
                        _ => {
                            hist += "0.6 s; ";
                            clock.pass(600).await;
                        }
                    }
                    if counter_read {
                        for n in ["a", "b"] {
                            let s = m.get_mut(n).unwrap();
                            s.expire(clock.now());
                            let a = addr.send(GetSite(n.into())).await.ok().flatten();
                            let got = match a {
                                Some(a) => a.send(GetCurrentVisitorCount).await.ok(),
                                None => None,
                            };
                            c.check(got == Some(s.count()), || {
                                format!("{hist}: counter of {n} is {got:?} instead of {}", s.count())
                            });
                        }
                    } else if !compare(&c, &addr, &mut m, clock.now(), &hist).await {
                        return;
                    }
                }
                clock.pass(3000).await;
                compare(&c, &addr, &mut m, clock.now(), &format!("{hist} and 3 s")).await;
                c.obs(hist);
            })
        },
    )
    .about(format!("all sequences of {depth} of: visit a (1 s), visit b (2 s), 0.6 s pass; counts compared after each"))
    .shard(3)
}
fn bursts(depth: usize) -> Scenario {
    Scenario::new(format!("bursts-d{depth}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let addr = Master::new(100_000).start();
            let g = cfg(&[(3, 1), (6, 2), (9, 3)], 3);
            let mut m = Model::from([("a".to_string(), MSite::new(&g))]);
            let _ = add(&addr, "a", &g).await;
            let mut hist = String::new();
            for _ in 0..depth {
                let k = pick(4);
                if k == 3 {
                    hist += "1.4 s; ";
                    clock.pass(1400).await;
                } else {
                    let n = [1, 4, 7][k];
                    hist += &format!("{n} visits at once; ");
                    let j = Join::new();
                    for _ in 0..n {
                        let addr = addr.clone();
                        j.go(async move { visit(&addr, "a").await });
                    }
                    let mut got: Vec<_> = j.settle().await.into_iter().map(|r| r.map(|r| r.unwrap_or(None))).collect();
                    let mut want: Vec<_> = (0..n).map(|_| Some(Some(m.get_mut("a").unwrap().visit(clock.now())))).collect();
                    got.sort();
                    want.sort();
                    c.check(got == want, || format!("{hist}: answers {got:?} instead of {want:?}"));
                }
                if !compare(&c, &addr, &mut m, clock.now(), &hist).await {
                    return;
                }
            }
            c.obs(hist);
        })
    })
    .about(format!("all sequences of {depth} of: 1, 4 or 7 concurrent visits, 1.4 s pass; one site of 3 s"))
    .shard(2)
}
fn durations() -> Scenario {
    const D: [u64; 14] = [1, 2, 30, 59, 60, 86_400, 65_535, 65_536, 4_294_967, 4_294_968, 10_000_000, 16_777_217, 30_000_000, 33_554_433];
    Scenario::new("durations", 0, move |c: Ctx| {
        exec::block_on(async move {
            let d = D[pick(D.len())];
            let addr = Master::new(u64::MAX / 4).start();
            let g = cfg(&[(1, 1), (5, 2)], d);
            let r = add(&addr, "a", &g).await;
            c.check(r.is_ok(), || short(&r));
            let mut counts = vec![];
            let mut v = |x: CaptchaResult<BTreeMap<String, View>>| counts.push(x.ok().and_then(|x| x.get("a").map(|v| v.count)));
            let _ = visit(&addr, "a").await;
            exec::idle().await;
            v(views(&addr).await);
            exec::pass_ms(d * 1000 - 400, 1 << 40).await;
            v(views(&addr).await);
            let _ = visit(&addr, "a").await;
            exec::idle().await;
            v(views(&addr).await);
            exec::pass_ms(800, 400).await;
            v(views(&addr).await);
            exec::pass_ms(d * 1000, 1 << 40).await;
            v(views(&addr).await);
            c.obs(format!("{d} s: {counts:?}"));
            c.check(counts == [Some(1), Some(1), Some(2), Some(1), Some(0)], || format!("duration {d} s: counts {counts:?}"));
        })
    })
    .about("visits around the end of durations from 1 s to 388 days")
}
/// Many visitors: they come in waves and leave one by one.
fn crowd(n: u32) -> Scenario {
    Scenario::new(format!("crowd-{n}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let addr = Master::new(u64::MAX / 4).start();
            let d = [1, 3][pick(2)];
            let g = cfg(&[(1, 1), (70_000, 2)], d);
            let _ = add(&addr, "a", &g).await;
            let mut m = Model::from([("a".to_string(), MSite::new(&g))]);
            for wave in 0..4 {
                for b in batches((n >> wave) as usize) {
                    // in whatever order they are counted
                    let mut rs: Vec<String> = at_once(b.clone().map(|_| visit(&addr, "a"))).await.iter().map(short).collect();
                    let mut want: Vec<String> = b.clone().map(|_| short(&Ok(Some(m.get_mut("a").unwrap().visit(clock.now()))))).collect();
                    rs.sort();
                    want.sort();
                    if !c.check(rs == want, || format!("visits {b:?} of wave {wave}: {rs:?} and not {want:?}")) {
                        return;
                    }
                }
                exec::idle().await;
                if !compare(&c, &addr, &mut m, clock.now(), &format!("wave {wave} of {n} visits")).await {
                    return;
                }
                clock.pass(400).await;
                if !compare(&c, &addr, &mut m, clock.now(), &format!("wave {wave} of {n} visits and 0.4 s")).await {
                    return;
                }
            }
            clock.pass(d * 1000).await;
            compare(&c, &addr, &mut m, clock.now(), "all visits").await;
            c.obs(format!("{n} {d}"));
        })
    })
    .steps(400 * n as usize)
    .about(format!("waves of {n}, {}, {} and {} visits", n / 2, n / 4, n / 8))
}
/// The count of the site object itself, up to large numbers.
fn object_counts() -> Scenario {
    Scenario::new("large-counts", 0, move |c: Ctx| {
        let g = [cfg(&[(1, 1), (5, 2)], 1), cfg(&[(1, 1), (70_000, 2)], u64::MAX)][pick(2)].clone();
        let n = [255u32, 256, 257, 65_535, 65_536, 65_537, 200_000, 1_000_010, 16_777_220][pick(9)];
        let by = [1u32, 2, 255, 256, 65_535, 65_536, 65_537, u32::MAX - 1, u32::MAX][pick(9)];
        let mut m = g.build();
        for i in 1..=n {
            m.add_visitor();
            if m.get_visitors() != i {
                return c.fail(format!("{i} visits count {}", m.get_visitors()));
            }
        }
        m.decrement_visitor_by(by);
        c.check(m.get_visitors() == n.saturating_sub(by), || format!("{n} less {by} is {}", m.get_visitors()));
        m.add_visitor();
        c.check(m.get_visitors() == n.saturating_sub(by) + 1, || format!("{n} less {by} and 1 is {}", m.get_visitors()));
        c.obs(format!("{n} {by}"));
    })
    .about("counts around 2^8, 2^16, a million and 2^24 on the site object, and decrements around and beyond them")
}
/// Sites whose names are alike count for themselves.
fn count_names() -> Scenario {
    Scenario::new("site-names", 0, move |c: Ctx| {
        exec::block_on(async move {
            let (x, y) = pick_names();
            let clock = Clock::default();
            let addr = Master::new(100_000).start();
            let mut m = Model::new();
            for (n, g) in [(&x, cfg1()), (&y, cfg2())] {
                let _ = add(&addr, n, &g).await;
                m.insert(n.clone(), MSite::new(&g));
            }
            for n in [&x, &y, &x, &x] {
                let r = visit(&addr, n).await;
                let want = m.get_mut(n).unwrap().visit(clock.now());
                c.check(r == Ok(Some(want)), || format!("{x:?} and {y:?}: a visit of {n:?}: {}", short(&r)));
            }
            for _ in 0..3 {
                compare(&c, &addr, &mut m, clock.now(), &format!("visits of {x:?}, {y:?}, {x:?}, {x:?}")).await;
                clock.pass(800).await;
            }
            c.obs(format!("{x} {y}"));
        })
    })
    .about(format!("{}, as sites", pairs()))
    .shard(1)
}
pub fn c06(t: Tier) -> Vec<Scenario> {
    vec![
        leaky(t.or(10, 13), false),
        leaky(t.or(8, 11), true),
        bursts(t.or(7, 9)),
        durations(),
        crowd(t.or(10_007, 30_011)),
        object_counts(),
        count_names(),
    ]
}

// ---- C13 -----------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    Add(&'static str, Cfg),
    Remove(&'static str),
    Rename(&'static str, &'static str),
    Visit(&'static str),
    Tick(u64),
}
#[derive(Clone, Debug, PartialEq)]
enum Ans {
    Unit,
    Visit(Option<(u64, u32)>),
    Err(String),
}
fn model_op(m: &mut Model, op: &Op, now: u64) -> Ans {
    match op {
        Op::Add(n, g) => {
            m.insert(n.to_string(), MSite::new(g));
        }
        Op::Remove(n) => {
            m.remove(*n);
        }
        Op::Rename(a, b) => {
            if let Some(s) = m.remove(*a) {
                m.insert(b.to_string(), s);
            }
        }
        Op::Visit(n) => return Ans::Visit(m.get_mut(*n).map(|s| s.visit(now))),
        Op::Tick(_) => {}
    }
    Ans::Unit
}
fn ans(r: CaptchaResult<()>) -> Ans {
    match r {
        Ok(()) => Ans::Unit,
        Err(e) => Ans::Err(e2s(&e)),
    }
}
async fn real_op(addr: &Addr<Master>, op: &Op, clock: Option<&Clock>) -> Ans {
    match op {
        Op::Add(n, g) => ans(add(addr, n, g).await),
        Op::Remove(n) => ans(remove(addr, n).await),
        Op::Rename(a, b) => ans(rename(addr, a, b).await),
        Op::Visit(n) => match visit(addr, n).await {
            Ok(v) => Ans::Visit(v),
            Err(e) => Ans::Err(e2s(&e)),
        },
        Op::Tick(ms) => {
            clock.unwrap().pass(*ms).await;
            Ans::Unit
        }
    }
}
fn map_seq(name: &str, ops: Vec<Op>, depth: usize) -> Scenario {
    let about = format!("all sequences of {depth} operations out of {}; the registry compared with a map after each", ops.len());
    Scenario::new(format!("{name}-d{depth}"), 0, move |c: Ctx| {
        let ops = ops.clone();
        exec::block_on(async move {
            let clock = Clock::default();
            let addr = Master::new(100_000).start();
            let mut m = Model::new();
            let mut hist: Vec<Op> = vec![];
            for _ in 0..depth {
                let op = ops[pick(ops.len())].clone();
                let got = real_op(&addr, &op, Some(&clock)).await;
                let want = model_op(&mut m, &op, clock.now());
                hist.push(op);
                if !c.check(got == want, || format!("{hist:?}: answered {got:?} instead of {want:?}")) {
                    return;
                }
                exec::idle().await;
                if !compare(&c, &addr, &mut m, clock.now(), &format!("{hist:?}")).await {
                    return;
                }
            }
            // all names answer as expected afterwards
            for n in ["a", "b", "A", ""] {
                let got = real_op(&addr, &Op::Visit(n), None).await;
                let want = model_op(&mut m, &Op::Visit(n), clock.now());
                c.check(got == want, || format!("after {hist:?} a visit of {n:?} gives {got:?} instead of {want:?}"));
            }
            let known = addr.send(GetSite("zz".into())).await;
            c.check(matches!(known, Ok(None)), || "an unknown site is found".into());
            compare(&c, &addr, &mut m, clock.now(), &format!("{hist:?} and visits")).await;
            c.obs(format!("{hist:?}"));
        })
    })
    .about(about)
    .shard(2)
}
/// Two sites whose names are alike: all sequences.
fn map_names(depth: usize) -> Scenario {
    Scenario::new(format!("names-d{depth}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let (x, y) = pick_names();
            // (only for the model's sake: names live as long as the process)
            let (x, y): (&'static str, &'static str) = (intern(x), intern(y));
            let ops = [Op::Visit(x), Op::Add(y, cfg2()), Op::Remove(x), Op::Rename(x, y), Op::Visit(y)];
            let addr = Master::new(100_000).start();
            let mut m = Model::new();
            let mut hist = vec![Op::Add(x, cfg1())];
            for i in 0..=depth {
                if i > 0 {
                    hist.push(ops[pick(ops.len())].clone());
                }
                let op = hist.last().unwrap();
                let got = real_op(&addr, op, None).await;
                let want = model_op(&mut m, op, 0);
                if !c.check(got == want, || format!("{hist:?}: answered {got:?} instead of {want:?}")) {
                    return;
                }
            }
            compare(&c, &addr, &mut m, 0, &format!("{hist:?}")).await;
            for n in [x, y] {
                let s = addr.send(GetSite(n.into())).await;
                c.check(matches!(&s, Ok(s) if s.is_some() == m.contains_key(n)), || format!("{hist:?}: look-up of {n:?}"));
            }
            c.obs(format!("{hist:?}"));
        })
    })
    .about(format!("{}, as sites, and all sequences of {depth} of: visit, add, remove, rename", pairs()))
    .shard(1)
}
fn intern(s: String) -> &'static str {
    thread_local!(static T: std::cell::RefCell<HashMap<String, &'static str>> = Default::default());
    T.with(|t| {
        *t.borrow_mut().entry(s.clone()).or_insert_with(|| Box::leak(s.into_boxed_str()))
    })
}
/// Many sites.
fn map_crowd(n: usize) -> Scenario {
    Scenario::new(format!("crowd-{n}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let k = pick(3);
            let addr = Master::new(100_000).start();
            let mut m = Model::new();
            let name = |i: usize| format!("{:03}", i * 7919 % n);
            let g = |i: usize| cfg(&[(i as u32 % 4, 1 + i as u32), (9, 5000)], 1 + i as u64 % 3);
            for i in 0..n {
                let r = add(&addr, &name(i), &g(i)).await;
                c.check(r.is_ok(), || short(&r));
                m.insert(name(i), MSite::new(&g(i)));
            }
            for i in 0..n {
                for _ in 0..i % 5 {
                    let want = m.get_mut(&name(i)).unwrap().visit(0);
                    let r = visit(&addr, &name(i)).await;
                    c.check(r == Ok(Some(want)), || format!("site {i} of {n}: {}", short(&r)));
                }
            }
            for i in (0..n).filter(|i| i % 3 == k) {
                let r = match i % 2 {
                    0 => {
                        m.remove(&name(i));
                        remove(&addr, &name(i)).await
                    }
                    _ => {
                        let s = m.remove(&name(i)).unwrap();
                        let to = format!("new{}", i / 6);
                        m.insert(to.clone(), s);
                        rename(&addr, &name(i), &to).await
                    }
                };
                c.check(r.is_ok(), || short(&r));
            }
            compare(&c, &addr, &mut m, 0, &format!("{n} sites")).await;
            c.obs(format!("{n} {k}"));
        })
    })
    .steps(1000 * n)
    .about(format!("{n} sites added, visited, a third of them removed or renamed"))
}
pub fn c13(t: Tier) -> Vec<Scenario> {
    let mut full = vec![];
    let names = ["a", "A", ""];
    for n in names {
        full.push(Op::Visit(n));
    }
    for n in names {
        full.push(Op::Add(n, cfg1()));
        full.push(Op::Add(n, cfg2()));
        full.push(Op::Remove(n));
    }
    for a in names {
        for b in names {
            full.push(Op::Rename(a, b));
        }
    }
    let two = vec![
        Op::Visit("a"),
        Op::Visit("b"),
        Op::Tick(600),
        Op::Add("a", cfg2()),
        Op::Add("b", cfg1()),
        Op::Rename("a", "b"),
        Op::Rename("b", "a"),
        Op::Remove("a"),
    ];
    vec![
        map_seq("map", full, t.or(4, 5)),
        map_seq("map-time", two, t.or(6, 8)),
        map_names(t.or(2, 3)),
        map_crowd(t.or(1100, 5000)),
    ]
}

// ---- C14 -----------------------------------------------------------------------------
const GC: u64 = 2;
#[derive(Clone, Debug)]
struct GSite {
    s: MSite,
    /// used since it was added, under whatever name
    ever: bool,
    /// used since it was added or renamed
    recent: bool,
    /// since when it may be removed
    idle_since: u64,
}
type GModel = BTreeMap<String, GSite>;
fn gvisit(g: &mut GModel, n: &str, now: u64) -> Option<(u64, u32)> {
    g.get_mut(n).map(|x| {
        x.ever = true;
        x.recent = true;
        let r = x.s.visit(now);
        x.idle_since = *x.s.ends.iter().max().unwrap();
        r
    })
}
fn gadd(g: &mut GModel, n: &str, c: &Cfg, now: u64) {
    g.insert(
        n.into(),
        GSite {
            s: MSite::new(c),
            ever: false,
            recent: false,
            idle_since: now,
        },
    );
}
/// Compares the registry with the model, adopting the removals the clean-up was allowed to do.
async fn gcompare(c: &Ctx, addr: &Addr<Master>, g: &mut GModel, now: u64, hist: &str) -> bool {
    gcompare_every(GC, c, addr, g, now, hist).await
}
async fn gcompare_every(period: u64, c: &Ctx, addr: &Addr<Master>, g: &mut GModel, now: u64, hist: &str) -> bool {
    let got = match views(addr).await {
        Ok(v) => v,
        Err(e) => {
            c.fail(format!("snapshot fails after {hist}: {e:?}"));
            return false;
        }
    };
    for n in got.keys() {
        if !c.check(g.contains_key(n), || format!("{hist}: unexpected site {n}: {got:?}")) {
            return false;
        }
    }
    let mut gone = vec![];
    for (n, x) in g.iter_mut() {
        x.s.expire(now);
        match got.get(n) {
            Some(v) => {
                let want = x.s.view();
                if !c.check(*v == want, || format!("{hist} (t={now}): {n} is {v:?}, expected {want:?}")) {
                    return false;
                }
                let overdue = x.recent && x.s.count() == 0 && now > x.idle_since + period * 1000 + 300;
                if !c.check(!overdue, || {
                    format!("{hist} (t={now}): {n} is used and idle since {} and still there", x.idle_since)
                }) {
                    return false;
                }
            }
            None => {
                if !c.check(x.ever && x.s.count() == 0, || {
                    format!("{hist} (t={now}): {n} was removed, used: {}, visitors: {}", x.ever, x.s.count())
                }) {
                    return false;
                }
                gone.push(n.clone());
            }
        }
    }
    for n in gone {
        g.remove(&n);
    }
    true
}
fn gc_seq(depth: usize) -> Scenario {
    Scenario::new(format!("cleanup-d{depth}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let addr = Master::new(GC).start();
            let mut g = GModel::new();
            let mut hist = String::new();
            exec::idle().await;
            for _ in 0..depth {
                let now = clock.now();
                match pick(9) {
                    k @ (0 | 1) => {
                        let n = ["a", "b"][k];
                        hist += &format!("visit {n}; ");
                        let got = visit(&addr, n).await;
                        let want = gvisit(&mut g, n, now);
                        c.check(got == Ok(want), || format!("{hist}: {} instead of {want:?}", short(&got)));
                    }
                    2 => {
                        hist += "0.6 s; ";
                        clock.pass(600).await;
                    }
                    3 => {
                        hist += "1.6 s; ";
                        clock.pass(1600).await;
                    }
                    k @ (4 | 5) => {
                        let (n, d) = [("a", cfg1()), ("b", cfg2())][k - 4].clone();
                        hist += &format!("add {n}; ");
                        let r = add(&addr, n, &d).await;
                        c.check(r.is_ok(), || format!("{hist}: {}", short(&r)));
                        gadd(&mut g, n, &d, now);
                    }
                    k @ (6 | 7) => {
                        let (x, y) = [("a", "b"), ("b", "a")][k - 6];
                        hist += &format!("rename {x} to {y}; ");
                        let r = rename(&addr, x, y).await;
                        c.check(r.is_ok(), || format!("{hist}: {}", short(&r)));
                        if let Some(mut s) = g.remove(x) {
                            s.recent = false;
                            g.insert(y.into(), s);
                        }
                    }
                    _ => {
                        hist += "look up a; ";
                        let r = addr.send(GetSite("a".into())).await;
                        let there = matches!(r, Ok(Some(_)));
                        c.check(there == g.contains_key("a"), || format!("{hist}: found: {there}"));
                        if let Some(x) = g.get_mut("a") {
                            x.ever = true;
                            x.recent = true;
                            x.idle_since = x.idle_since.max(now);
                        }
                    }
                }
                exec::idle().await;
                if !gcompare(&c, &addr, &mut g, clock.now(), &hist).await {
                    return;
                }
            }
            // the clean-up goes on
            for _ in 0..2 {
                clock.pass(6200).await;
                hist += "6.2 s; ";
                if !gcompare(&c, &addr, &mut g, clock.now(), &hist).await {
                    return;
                }
                for n in ["a", "b"] {
                    hist += &format!("visit {n}; ");
                    let got = visit(&addr, n).await;
                    let want = gvisit(&mut g, n, clock.now());
                    c.check(got == Ok(want), || format!("{hist}: {} instead of {want:?}", short(&got)));
                }
            }
            c.obs(hist);
        })
    })
    .about(format!("all sequences of {depth} of: visits, look-up, adds, renames on two sites, 0.6 s and 1.6 s; clean-up every {GC} s"))
    .shard(3)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Race {
    VisitA,
    AddA,
    AddB,
    RenameAB,
    RenameBA,
    RemoveA,
    VisitB,
    Lookup,
    Snapshot,
    RestoreA,
}
const RACES: [Race; 10] = [
    Race::VisitA,
    Race::AddA,
    Race::AddB,
    Race::RenameAB,
    Race::RenameBA,
    Race::RemoveA,
    Race::VisitB,
    Race::Lookup,
    Race::Snapshot,
    Race::RestoreA,
];
#[derive(Debug, Clone)]
enum RAns {
    Visit(CaptchaResult2<Option<(u64, u32)>>),
    Unit(CaptchaResult2<()>),
    Found(bool),
    Snap(CaptchaResult2<BTreeMap<String, View>>),
}
type CaptchaResult2<T> = Result<T, String>;
fn s2<T>(r: CaptchaResult<T>) -> CaptchaResult2<T> {
    r.map_err(|e| e2s(&e))
}
async fn race_op(addr: Addr<Master>, r: Race, snap: HashMap<String, MCaptcha>) -> RAns {
    match r {
        Race::VisitA => RAns::Visit(s2(visit(&addr, "a").await)),
        Race::VisitB => RAns::Visit(s2(visit(&addr, "b").await)),
        Race::AddA => RAns::Unit(s2(add(&addr, "a", &cfg2()).await)),
        Race::AddB => RAns::Unit(s2(add(&addr, "b", &cfg2()).await)),
        Race::RenameAB => RAns::Unit(s2(rename(&addr, "a", "b").await)),
        Race::RenameBA => RAns::Unit(s2(rename(&addr, "b", "a").await)),
        Race::RemoveA => RAns::Unit(s2(remove(&addr, "a").await)),
        Race::Lookup => RAns::Found(matches!(addr.send(GetSite("a".into())).await, Ok(Some(_)))),
        Race::Snapshot => RAns::Snap(s2(views(&addr).await)),
        Race::RestoreA => RAns::Unit(s2(restore(&addr, snap).await)),
    }
}
/// `n` requests race with a clean-up run that finds sites `a` (always) and `b` idle.
fn gc_race(n: usize, bound: u32) -> Scenario {
    Scenario::new(format!("race-{n}ops-b{bound}"), bound, move |c: Ctx| {
        exec::block_on(async move {
            let around = pick(3);
            let with_b = around == 1;
            // sites the requests have nothing to do with
            let bystanders: &[&str] = if around == 2 { &["0", "z"] } else { &[] };
            let ops: Vec<Race> = (0..n).map(|_| RACES[pick(RACES.len())]).collect();
            if n > 1 && ops.windows(2).any(|w| RACES.iter().position(|x| *x == w[0]) > RACES.iter().position(|x| *x == w[1])) {
                return; // the other order is explored as task order
            }
            let addr = Master::new(GC).start();
            let _ = add(&addr, "a", &cfg1()).await;
            if with_b {
                let _ = add(&addr, "b", &cfg1()).await;
                let _ = visit(&addr, "b").await;
            }
            for b in bystanders {
                let _ = add(&addr, b, &cfg1()).await;
                let _ = visit(&addr, b).await;
            }
            let _ = visit(&addr, "a").await;
            let mut snap = snapshot(&addr).await.unwrap_or_default();
            snap.retain(|n, _| n == "a");
            // 1.0 s: the visitors leave; about 2.0 s: the clean-up is due
            exec::pass_ms(1600, 200).await;
            let v0 = views(&addr).await.unwrap_or_default();
            c.check(v0.contains_key("a") && v0["a"].count == 0, || format!("before the race: {v0:?}"));
            exec::idle().await;
            let a0 = exec::polls();
            exec::advance_ms(600);
            exec::explore_tasks(true);
            let j = Join::new();
            for &o in &ops {
                let (addr, snap) = (addr.clone(), snap.clone());
                j.go(async move { race_op(addr, o, snap).await });
            }
            let res = j.settle().await;
            exec::explore_tasks(false);
            let _ = a0;
            let what = format!("{ops:?} (b: {with_b}) gave {res:?}");
            let mut all = true;
            for r in &res {
                all &= c.check(r.is_some(), || format!("{what}: a request is not answered"));
            }
            if !all {
                return;
            }
            let v = match views(&addr).await {
                Ok(v) => v,
                Err(e) => {
                    c.fail(format!("{what}: the registry is dead: {e:?}"));
                    return;
                }
            };
            c.obs(format!("{what}: {v:?}"));
            for b in bystanders {
                c.check(!v.contains_key(*b), || format!("{what}: idle site {b:?} is not removed by the run that was due: {v:?}"));
            }
            let has = |r: Race| ops.contains(&r);
            let others_touch_a = has(Race::AddA) || has(Race::RemoveA) || has(Race::RenameAB) || has(Race::RenameBA) || has(Race::RestoreA) || has(Race::AddB);
            // a visit that was counted keeps its site
            for (o, r) in ops.iter().zip(&res) {
                match (o, r.as_ref().unwrap()) {
                    (Race::VisitA, RAns::Visit(Ok(Some(_)))) if !others_touch_a => {
                        let n = ops.iter().zip(&res).filter(|(o, r)| **o == Race::VisitA && matches!(r, Some(RAns::Visit(Ok(Some(_)))))).count();
                        c.check(v.get("a").map(|x| x.count as usize) == Some(n), || {
                            format!("{what}: a visit was counted and its site is lost: {v:?}")
                        });
                    }
                    (Race::VisitB, RAns::Visit(Ok(Some(_)))) if !others_touch_a => {
                        c.check(v.get("b").map(|x| x.count >= 1) == Some(true), || {
                            format!("{what}: a visit was counted and its site is lost: {v:?}")
                        });
                    }
                    (Race::VisitB, RAns::Visit(r)) if !with_b && !has(Race::AddB) && !has(Race::RenameAB) => {
                        c.check(*r == Ok(None), || format!("{what}: visit of an unknown site: {r:?}"));
                    }
                    (_, RAns::Unit(r)) => {
                        // a removal may find its site stopped by the clean-up already
                        c.check(r.is_ok() || *o == Race::RemoveA, || format!("{what}: {o:?} fails"));
                    }
                    _ => {}
                }
            }
            // a site added in the race was not the idle one
            let once = ops.iter().filter(|o| **o == Race::AddA).count() == 1;
            if once && !has(Race::RemoveA) && !has(Race::RenameBA) && !has(Race::RenameAB) && !has(Race::RestoreA) && !has(Race::Lookup) {
                let counted = ops.iter().zip(&res).filter(|(o, r)| **o == Race::VisitA && matches!(r, Some(RAns::Visit(Ok(Some((2, _))))))).count() as u32;
                c.check(v.get("a").map(|x| (x.duration, x.count)) == Some((2, counted)), || {
                    format!("{what}: the new site was removed in place of the old one: {v:?}")
                });
            }
            if has(Race::AddB) && !has(Race::RenameAB) && !has(Race::RenameBA) {
                c.check(v.get("b").map(|x| x.duration) == Some(2), || {
                    format!("{what}: the new site was removed in place of the old one: {v:?}")
                });
            }
            // no name is left behind with visits failing for good; a name that is not
            // known any more is free for a new site
            for n in ["a", "b"] {
                let r = visit(&addr, n).await;
                c.check(matches!(&r, Ok(x) if x.is_some() == v.contains_key(n)), || {
                    format!("{what}: then a visit of {n} gives {}, with sites {v:?}", short(&r))
                });
                let r = add(&addr, n, &cfg1()).await;
                c.check(r.is_ok(), || format!("{what}: then {n} cannot be added: {}", short(&r)));
                let r = visit(&addr, n).await;
                c.check(matches!(&r, Ok(Some(_))), || format!("{what}: then the new {n} answers {}", short(&r)));
            }
            // and the clean-up goes on
            exec::pass_ms(5800, 200).await;
            let v = views(&addr).await;
            c.check(matches!(&v, Ok(v) if v.is_empty()), || format!("{what}: idle sites stay: {v:?}"));
        })
    })
    .about(format!("{n} concurrent requests out of {} racing with a clean-up run, alone, with a second site or between two idle bystanders, every task order up to {bound} deviations", RACES.len()))
    .shard(3)
}
/// Many sites of all kinds under clean-ups of several periods.
fn gc_crowd(n: usize) -> Scenario {
    Scenario::new(format!("cleanup-crowd-{n}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let period = [1u64, 2, 3, 5, 60][pick(5)];
            let kinds = 1 + pick(7); // only one kind, or (7) all of them
            let clock = Clock::default();
            let addr = Master::new(period).start();
            exec::idle().await;
            clock.pass(100).await;
            let mut g = GModel::new();
            let what = format!("{n} sites of kind {kinds}, clean-up every {period} s");
            for i in 0..n {
                let (s, cf) = (format!("s{i}"), [cfg1(), cfg2(), cfg(&[(1, 5), (2, 6)], 7)][i % 3].clone());
                let now = clock.now();
                let r = add(&addr, &s, &cf).await;
                c.check(r.is_ok(), || short(&r));
                gadd(&mut g, &s, &cf, now);
                match if kinds == 7 { i * 5 % 7 } else { kinds } {
                    1 => {
                        // looked up only
                        let r = addr.send(GetSite(s.clone())).await;
                        c.check(matches!(r, Ok(Some(_))), || format!("{what}: {s} is not found"));
                        let x = g.get_mut(&s).unwrap();
                        x.ever = true;
                        x.recent = true;
                    }
                    k @ (2 | 3) => {
                        for _ in 0..k * 2 - 3 {
                            let r = visit(&addr, &s).await;
                            let want = gvisit(&mut g, &s, now);
                            c.check(r == Ok(want), || format!("{what}: {}", short(&r)));
                        }
                    }
                    4 => {
                        let _ = visit(&addr, &s).await;
                        gvisit(&mut g, &s, now);
                        let to = format!("new{i}");
                        let r = rename(&addr, &s, &to).await;
                        c.check(r.is_ok(), || short(&r));
                        let mut x = g.remove(&s).unwrap();
                        x.recent = false;
                        g.insert(to, x);
                    }
                    5 => {
                        let _ = visit(&addr, &s).await;
                        let r = add(&addr, &s, &cf).await;
                        c.check(r.is_ok(), || short(&r));
                        gadd(&mut g, &s, &cf, now);
                    }
                    6 => {
                        let r = remove(&addr, &s).await;
                        c.check(r.is_ok(), || short(&r));
                        g.remove(&s);
                    }
                    _ => {} // never used
                }
            }
            exec::idle().await;
            for _ in 0..8 {
                if !gcompare_every(period, &c, &addr, &mut g, clock.now(), &what).await {
                    return;
                }
                clock.pass(700).await;
                // one site of every kind stays in use
                for i in 0..7.min(n) {
                    let s = format!("s{i}");
                    let r = visit(&addr, &s).await;
                    let want = gvisit(&mut g, &s, clock.now());
                    c.check(r == Ok(want), || format!("{what}: a later visit of {s}: {} instead of {want:?}", short(&r)));
                }
                exec::idle().await;
            }
            clock.pass(period * 1000 + 7400).await;
            if !gcompare_every(period, &c, &addr, &mut g, clock.now(), &what).await {
                return;
            }
            clock.pass(period * 3000).await;
            gcompare_every(period, &c, &addr, &mut g, clock.now(), &what).await;
            c.obs(what);
        })
    })
    .steps(100_000 * n)
    .about(format!("{n} sites: unused, looked up, visited, renamed, replaced, removed, or some of each; clean-up every 1, 2, 3, 5 or 60 s"))
}
/// Clean-up of a site with any number of visitors.
fn gc_counts() -> Scenario {
    Scenario::new("cleanup-counts", 0, move |c: Ctx| {
        exec::block_on(async move {
            let ns = any_counts();
            let n = ns[pick(ns.len())];
            let period = [1u64, 2, 3][pick(3)];
            let known = pick(2) == 1;
            let clock = Clock::default();
            let g = cfg(&[(4, 5), (70_000, 6), (1 << 30, 70)], 5);
            let src = Master::new(100_000).start();
            let _ = add(&src, "a", &g).await;
            for _ in 0..3 {
                let _ = visit(&src, "a").await;
            }
            exec::idle().await;
            let Ok(snap) = snapshot(&src).await else {
                return c.fail("no snapshot");
            };
            let Some(snap) = with_visitors(&c, snap, n) else { return };
            let addr = Master::new(period).start();
            if known {
                let _ = add(&addr, "a", &g).await;
            }
            clock.pass(100).await;
            let r = restore(&addr, snap).await;
            let what = format!("a site with {n} visitors of 5 s, clean-up every {period} s");
            c.check(r.is_ok(), || format!("{what}: {}", short(&r)));
            exec::idle().await;
            let r = addr.send(GetSite("a".into())).await;
            c.check(matches!(r, Ok(Some(_))), || format!("{what}: the site is not found"));
            exec::idle().await;
            if n > 0 {
                for t in [1400, 2400, 3400, 4600] {
                    clock.pass(t + 100 - clock.now()).await;
                    let v = views(&addr).await;
                    let count = v.as_ref().ok().and_then(|v| v.get("a")).map(|v| v.count);
                    c.check(count == Some(n), || format!("{what}, after {t} ms: {count:?} visitors"));
                }
            }
            clock.pass(5100 + period * 1000 + 300 - clock.now()).await;
            let v = views(&addr).await;
            c.check(matches!(&v, Ok(v) if v.is_empty()), || format!("{what}: it stays"));
            c.obs(format!("{n} {period} {known}"));
        })
    })
    .about("a used site with visitor counts around every power of two up to 2^32-10, restored: it stays with them and goes after them")
}
/// The life of one site under clean-up, from the moment it was added.
fn gc_life(depth: usize) -> Scenario {
    Scenario::new(format!("cleanup-life-d{depth}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let addr = Master::new(GC).start();
            let mut g = GModel::new();
            let mut hist = String::new();
            exec::idle().await;
            clock.pass(100).await;
            let _ = add(&addr, "a", &cfg1()).await;
            gadd(&mut g, "a", &cfg1(), clock.now());
            for _ in 0..depth {
                let now = clock.now();
                match pick(6) {
                    0 => {
                        hist += "visit a; ";
                        let got = visit(&addr, "a").await;
                        if got == Ok(None) {
                            // the clean-up may have been at it
                            if let Some(x) = g.get_mut("a") {
                                x.s.expire(now);
                                if x.ever && x.s.count() == 0 {
                                    g.remove("a");
                                }
                            }
                        }
                        let want = gvisit(&mut g, "a", now);
                        c.check(got == Ok(want), || format!("{hist}: {} instead of {want:?}", short(&got)));
                    }
                    1 => {
                        hist += "snapshot; ";
                        let _ = snapshot(&addr).await;
                    }
                    2 => {
                        hist += "add a; ";
                        let r = add(&addr, "a", &cfg2()).await;
                        c.check(r.is_ok(), || format!("{hist}: {}", short(&r)));
                        gadd(&mut g, "a", &cfg2(), now);
                    }
                    3 => {
                        hist += "remove a; ";
                        let r = remove(&addr, "a").await;
                        c.check(r.is_ok(), || format!("{hist}: {}", short(&r)));
                        g.remove("a");
                    }
                    k => {
                        let ms = [600, 2000][k - 4];
                        hist += &format!("{ms} ms; ");
                        clock.pass(ms).await;
                    }
                }
                exec::idle().await;
            }
            if !gcompare(&c, &addr, &mut g, clock.now(), &hist).await {
                return;
            }
            clock.pass(4400).await;
            gcompare(&c, &addr, &mut g, clock.now(), &format!("{hist} 4.4 s")).await;
            c.obs(hist);
        })
    })
    .about(format!("all sequences of {depth} of: visit, snapshot, replacement, removal, 0.6 s, 2 s on one site, looked at only at the end; clean-up every {GC} s"))
    .shard(3)
}
/// Clean-up of sites whose names are alike.
fn gc_names() -> Scenario {
    Scenario::new("cleanup-names", 0, move |c: Ctx| {
        exec::block_on(async move {
            let (x, y) = pick_names();
            // of the other one: never used, visited once, visited again and again
            let other = pick(3);
            let clock = Clock::default();
            let addr = Master::new(GC).start();
            let mut g = GModel::new();
            exec::idle().await;
            clock.pass(100).await;
            for n in [&x, &y] {
                let r = add(&addr, n, &cfg1()).await;
                c.check(r.is_ok(), || short(&r));
                gadd(&mut g, n, &cfg1(), clock.now());
            }
            let what = format!("{x:?} visited once, {y:?} {}", ["not used", "visited once", "visited every 0.7 s"][other]);
            for i in 0..9 {
                for n in [&x, &y] {
                    if n == &x && i > 0 || n == &y && i >= [0, 1, 20][other] {
                        continue;
                    }
                    let got = visit(&addr, n).await;
                    let want = gvisit(&mut g, n, clock.now());
                    c.check(got == Ok(want), || format!("{what}: {} instead of {want:?}", short(&got)));
                }
                exec::idle().await;
                if !gcompare(&c, &addr, &mut g, clock.now(), &what).await {
                    return;
                }
                clock.pass(700).await;
            }
            clock.pass(4400).await;
            gcompare(&c, &addr, &mut g, clock.now(), &what).await;
            c.obs(what);
        })
    })
    .about(format!("{}: one visited once, the other unused, visited once or kept in use; clean-up every {GC} s", pairs()))
    .shard(1)
}
pub fn c14(t: Tier) -> Vec<Scenario> {
    vec![gc_crowd(t.or(1100, 3000)), gc_names(), gc_counts(), gc_life(t.or(7, 8)), gc_seq(t.or(5, 7)), gc_race(1, t.or(5, 7)), gc_race(2, t.or(3, 5)), gc_race(3, t.or(2, 3))]
}

// ---- C15 -----------------------------------------------------------------------------
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
fn lin_ops() -> Vec<Op> {
    vec![
        Op::Visit("a"),
        Op::Remove("a"),
        Op::Rename("a", "b"),
        Op::Add("a", cfg2()),
        Op::Add("b", cfg2()),
        Op::Visit("b"),
        Op::Rename("b", "a"),
        Op::Remove("b"),
    ]
}
/// `n` concurrent requests out of the first `k`; answers and final state have to be those of
/// a sequential order. A visit may also fail if it meets a removal of its site half way: it
/// then has no effect.
fn linear(n: usize, k: usize, bound: u32) -> Scenario {
    Scenario::new(format!("linear-{n}of{k}-b{bound}"), bound, move |c: Ctx| {
        exec::block_on(async move {
            let all = lin_ops();
            let with_b = pick(2) == 1;
            let idx: Vec<usize> = (0..n).map(|_| pick(k)).collect();
            if idx.windows(2).any(|w| w[0] > w[1]) {
                return; // same set of requests in another order
            }
            let ops: Vec<Op> = idx.iter().map(|&i| all[i].clone()).collect();
            let addr = Master::new(100_000).start();
            let mut m0 = Model::new();
            for op in [Op::Add("a", cfg1()), Op::Visit("a")].iter().chain(with_b.then_some(&Op::Add("b", cfg1()))) {
                let _ = real_op(&addr, op, None).await;
                model_op(&mut m0, op, 0);
            }
            exec::idle().await;
            exec::explore_tasks(true);
            let j = Join::new();
            for op in &ops {
                let (addr, op) = (addr.clone(), op.clone());
                j.go(async move { real_op(&addr, &op, None).await });
            }
            let res = j.settle().await;
            exec::explore_tasks(false);
            let what = format!("{ops:?} (b: {with_b}) gave {res:?}");
            if res.iter().any(|r| r.is_none()) {
                c.fail(format!("{what}: a request is not answered"));
                return;
            }
            let res: Vec<Ans> = res.into_iter().map(|r| r.unwrap()).collect();
            let got = match views(&addr).await {
                Ok(v) => v,
                Err(e) => {
                    c.fail(format!("{what}: the registry is dead: {e:?}"));
                    return;
                }
            };
            c.obs(format!("{what}: {got:?}"));
            let removal = ops.iter().any(|o| matches!(o, Op::Remove(_)));
            let ok = perms(n).iter().any(|p| {
                let mut m = m0.clone();
                for &i in p {
                    let failed_visit = matches!(ops[i], Op::Visit(_)) && matches!(res[i], Ans::Err(_));
                    // removing a counter that is being removed already may be told so
                    if failed_visit {
                        if !removal {
                            return false;
                        }
                        continue;
                    }
                    if model_op(&mut m, &ops[i], 0) != res[i] {
                        return false;
                    }
                }
                model_views(&mut m, 0) == got
            });
            c.check(ok, || format!("{what}, state {got:?}: no sequential order explains this"));
            // served normally afterwards
            let mut m: Model = Model::new();
            for op in [Op::Add("a", cfg2()), Op::Visit("a"), Op::Remove("b"), Op::Rename("a", "b"), Op::Visit("b"), Op::Visit("a")] {
                let r = real_op(&addr, &op, None).await;
                let w = model_op(&mut m, &op, 0);
                c.check(r == w, || format!("{what}: afterwards {op:?} gives {r:?} instead of {w:?}"));
            }
            compare(&c, &addr, &mut m, 0, &what).await;
        })
    })
    .about(format!("every choice of {n} concurrent requests of {k} on two names, every task order up to {bound} deviations; brute-force linearizability against the map model"))
    .shard(3)
}
/// Requests of all kinds at once, some of them abandoned, with or without a clean-up run:
/// all are answered and the registry goes on.
fn survive(n: usize, bound: u32) -> Scenario {
    Scenario::new(format!("survive-{n}-b{bound}"), bound, move |c: Ctx| {
        exec::block_on(async move {
            let cleanup = pick(2) == 1;
            // the first request is abandoned after so many polls
            let abandon = pick(3);
            let ops: Vec<Race> = (0..n).map(|_| RACES[pick(RACES.len())]).collect();
            let pos = |r: &Race| RACES.iter().position(|x| x == r).unwrap();
            if ops.windows(2).any(|w| pos(&w[0]) > pos(&w[1])) {
                return;
            }
            let addr = Master::new(GC).start();
            let _ = add(&addr, "a", &cfg1()).await;
            let _ = add(&addr, "b", &cfg1()).await;
            let _ = visit(&addr, "a").await;
            let mut snap = snapshot(&addr).await.unwrap_or_default();
            snap.retain(|n, _| n == "a");
            exec::pass_ms(1600, 200).await;
            if cleanup {
                exec::advance_ms(600);
            }
            exec::explore_tasks(true);
            let j = Join::new();
            for (i, &o) in ops.iter().enumerate() {
                let (addr, snap) = (addr.clone(), snap.clone());
                if abandon > 0 && i == 0 {
                    // the requester goes away
                    let mut f = Box::pin(race_op(addr, o, snap));
                    exec::spawn(async move {
                        let mut left = abandon;
                        std::future::poll_fn(|cx| {
                            left -= 1;
                            match f.as_mut().poll(cx) {
                                std::task::Poll::Pending if left > 0 => std::task::Poll::Pending,
                                _ => std::task::Poll::Ready(()),
                            }
                        })
                        .await;
                        drop(f);
                    });
                } else {
                    j.go(async move { race_op(addr, o, snap).await });
                }
            }
            let res = j.settle().await;
            exec::explore_tasks(false);
            let what = format!("{ops:?} (clean-up {cleanup}, first abandoned after {abandon} polls) gave {res:?}");
            for r in &res {
                c.check(r.is_some(), || format!("{what}: a request is not answered"));
                if let Some(RAns::Unit(Err(e))) = r {
                    c.check(ops.contains(&Race::RemoveA), || format!("{what}: {e}"));
                }
                if let Some(RAns::Snap(r)) = r {
                    c.check(r.is_ok(), || format!("{what}: the snapshot fails"));
                }
            }
            c.obs(&what[..]);
            let mut m: Model = Model::new();
            for op in [Op::Add("a", cfg2()), Op::Visit("a"), Op::Remove("b"), Op::Rename("a", "b"), Op::Visit("b"), Op::Visit("a")] {
                let r = real_op(&addr, &op, None).await;
                let w = model_op(&mut m, &op, 0);
                c.check(r == w, || format!("{what}: afterwards {op:?} gives {r:?} instead of {w:?}"));
            }
            compare(&c, &addr, &mut m, 0, &what).await;
            exec::pass_ms(4600, 200).await;
            let v = views(&addr).await;
            c.check(matches!(&v, Ok(v) if v.is_empty()), || format!("{what}: then the clean-up has stopped: {v:?}"));
        })
    })
    .about(format!("every choice of {n} concurrent requests of all {} kinds, with and without a clean-up run, the first one abandoned after 1 or 2 polls or not, every task order up to {bound} deviations", RACES.len()))
    .shard(3)
}
use std::future::Future;
/// More requests at once than a mailbox holds.
fn burst(sizes: &'static [usize]) -> Scenario {
    Scenario::new(format!("burst-{}", sizes[sizes.len() - 1]), 0, move |c: Ctx| {
        exec::block_on(async move {
            let n = sizes[pick(sizes.len())];
            let kind = pick(7);
            let clock = Clock::default();
            let addr = Master::new([1u64, 100_000][pick(2)]).start();
            let name = |i: usize| format!("s{i}");
            let mut m: BTreeMap<String, MSite> = BTreeMap::new();
            let sites = if kind < 2 { [1, 3][kind] } else { n };
            exec::idle().await;
            if kind != 2 {
                for i in 0..sites {
                    let _ = add(&addr, &name(i), &cfg2()).await;
                    m.insert(name(i), MSite::new(&cfg2()));
                }
            }
            let snap = if kind == 6 { snapshot(&addr).await.unwrap_or_default() } else { Default::default() };
            exec::idle().await;
            let what = format!("{n} {} at once", ["visits of a site", "visits of three sites", "adds", "removals", "renames", "visits, snapshots, renames and look-ups", "restores and visits"][kind]);
            let j = Join::new();
            for i in 0..n {
                let (addr, snap) = (addr.clone(), snap.clone());
                j.go(async move {
                    let n = format!("s{}", i % sites);
                    match kind {
                        0 | 1 => visit(&addr, &n).await.map(|v| v.is_some()),
                        2 => add(&addr, &n, &cfg2()).await.map(|_| true),
                        3 => remove(&addr, &n).await.map(|_| true),
                        4 => rename(&addr, &n, &format!("{n}x")).await.map(|_| true),
                        5 => match i % 4 {
                            0 => snapshot(&addr).await.map(|v| v.len() == sites),
                            1 => rename(&addr, &n, &format!("{n}x")).await.map(|_| true),
                            2 => Ok(matches!(addr.send(GetSite(n)).await, Ok(Some(_)))),
                            _ => visit(&addr, &n).await.map(|v| v.is_some()),
                        },
                        _ => match i % 5 {
                            0 => restore(&addr, snap).await.map(|_| true),
                            _ => visit(&addr, &n).await.map(|v| v.is_some()),
                        },
                    }
                });
            }
            let res = j.settle().await;
            for (i, r) in res.iter().enumerate() {
                c.check(matches!(r, Some(Ok(true))), || format!("{what}: request {i} is answered {r:?}"));
            }
            let ends = clock.now();
            for i in 0..n {
                let s = name(i % sites);
                match kind {
                    0 | 1 => {
                        m.get_mut(&s).unwrap().visit(ends);
                    }
                    2 => {
                        m.insert(s, MSite::new(&cfg2()));
                    }
                    3 => {
                        m.remove(&s);
                    }
                    _ if kind == 4 || kind == 5 && i % 4 == 1 => {
                        let x = m.remove(&s).unwrap();
                        m.insert(format!("{s}x"), x);
                    }
                    5 if i % 4 == 3 => {
                        m.get_mut(&s).unwrap().visit(ends);
                    }
                    _ => {}
                }
            }
            exec::idle().await;
            match views(&addr).await {
                Ok(v) if kind < 6 => {
                    let want: BTreeMap<String, View> = m.iter().map(|(k, s)| (k.clone(), s.view())).collect();
                    let diff: Vec<_> = want.iter().filter(|(k, x)| v.get(*k) != Some(x)).take(3).collect();
                    c.check(v == want, || format!("{what}: {} sites, expected {}; wrong: {diff:?}", v.len(), want.len()));
                }
                Ok(v) => {
                    c.check(v.len() == m.len(), || format!("{what}: {} sites", v.len()));
                }
                Err(e) => c.fail(format!("{what}: then a snapshot gives {e:?}")),
            }
            // and the registry is still there
            let r = add(&addr, "later", &cfg1()).await;
            c.check(r.is_ok(), || format!("{what}: then an add gives {}", short(&r)));
            let r = visit(&addr, "later").await;
            c.check(matches!(r, Ok(Some(_))), || format!("{what}: then a visit gives {}", short(&r)));
            c.obs(what);
        })
    })
    .steps(20_000 * sizes[sizes.len() - 1])
    .about(format!("{sizes:?} requests of seven mixtures at once, more than a mailbox holds: all answered and done"))
}
pub fn c15(t: Tier) -> Vec<Scenario> {
    vec![
        burst(t.or(&[5, 15, 16, 17, 18, 31, 32, 33, 34, 50, 64, 65, 100, 300], &[5, 15, 16, 17, 18, 31, 32, 33, 34, 50, 64, 65, 100, 300, 1025])),
        linear(2, 8, t.or(4, 6)),
        linear(3, 8, t.or(3, 4)),
        survive(2, t.or(4, 5)),
        survive(3, t.or(2, 3)),
    ]
}

// ---- C16 -----------------------------------------------------------------------------
fn snap_seq(before: usize, after: usize) -> Scenario {
    Scenario::new(format!("snapshot-{before}+{after}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let target = pick(5);
            let json = pick(2) == 1;
            let src = Master::new(100_000).start();
            let mut m = Model::new();
            for (n, g) in [("a", cfg1()), ("b", cfg2())] {
                let _ = add(&src, n, &g).await;
                m.insert(n.into(), MSite::new(&g));
            }
            let mut hist = String::new();
            for _ in 0..before {
                match pick(3) {
                    k @ (0 | 1) => {
                        let n = ["a", "b"][k];
                        hist += &format!("visit {n}; ");
                        let _ = visit(&src, n).await;
                        m.get_mut(n).unwrap().visit(clock.now());
                    }
                    _ => {
                        hist += "0.6 s; ";
                        clock.pass(600).await;
                    }
                }
            }
            exec::idle().await;
            if !compare(&c, &src, &mut m, clock.now(), &hist).await {
                return;
            }
            let mut snap = match snapshot(&src).await {
                Ok(s) => s,
                Err(e) => {
                    c.fail(format!("{hist}: the snapshot fails: {e:?}"));
                    return;
                }
            };
            // taking it changed nothing
            if !compare(&c, &src, &mut m, clock.now(), &format!("{hist} snapshot")).await {
                return;
            }
            if json {
                // as a server restart would do
                let s = serde_json::to_string(&snap).unwrap();
                snap = serde_json::from_str(&s).unwrap();
            }
            let dst = match target {
                0 => {
                    hist += "restore into a fresh registry; ";
                    Master::new(100_000).start()
                }
                1 => {
                    hist += "restore into a registry that knows b (idle, other levels) and c; ";
                    let d = Master::new(100_000).start();
                    let _ = add(&d, "b", &cfg(&[(7, 1), (8, 2)], 1)).await;
                    let _ = add(&d, "c", &cfg1()).await;
                    let _ = visit(&d, "c").await;
                    d
                }
                2 => {
                    hist += "visitors leave; restore into the same registry; ";
                    clock.pass(2600).await;
                    src.clone()
                }
                3 => {
                    hist += "visit a; restore into the same registry; ";
                    let _ = visit(&src, "a").await;
                    src.clone()
                }
                _ => {
                    hist += "restore into a registry that knows a and b (both with visitors, other levels); ";
                    let d = Master::new(100_000).start();
                    let _ = add(&d, "a", &cfg(&[(1, 1), (8, 2)], 1)).await;
                    let _ = add(&d, "b", &cfg(&[(7, 1), (8, 2)], 3)).await;
                    for n in ["a", "b", "b", "a"] {
                        let _ = visit(&d, n).await;
                        clock.pass(200).await;
                    }
                    d
                }
            };
            let r = restore(&dst, snap).await;
            c.check(r.is_ok(), || format!("{hist}: {}", short(&r)));
            exec::idle().await;
            let now = clock.now();
            for s in m.values_mut() {
                let n = s.ends.len();
                s.ends = vec![now + s.cfg.duration * 1000; n];
            }
            if target == 1 {
                let mut x = MSite::new(&cfg1());
                x.visit(now);
                m.insert("c".into(), x);
            }
            if !compare(&c, &dst, &mut m, now, &hist).await {
                return;
            }
            for _ in 0..after {
                match pick(3) {
                    k @ (0 | 1) => {
                        let n = ["a", "b"][k];
                        hist += &format!("visit {n}; ");
                        let got = visit(&dst, n).await;
                        let want = m.get_mut(n).unwrap().visit(clock.now());
                        c.check(got == Ok(Some(want)), || format!("{hist}: {} instead of {want:?}", short(&got)));
                    }
                    _ => {
                        hist += "0.6 s; ";
                        clock.pass(600).await;
                    }
                }
                if !compare(&c, &dst, &mut m, clock.now(), &hist).await {
                    return;
                }
            }
            clock.pass(2400).await;
            compare(&c, &dst, &mut m, clock.now(), &format!("{hist} and 2.4 s")).await;
            c.obs(hist);
        })
    })
    .about(format!("all sequences of {before} visits and time steps before the snapshot and {after} after its restore, into a fresh registry, one that knows one of the sites, one that knows both with other levels and visitors, and the same one, after its visitors have left or before; with and without JSON in between"))
    .shard(3)
}
/// Two registries with clean-up and the same history; of one of them snapshots are taken.
fn snap_twin(depth: usize) -> Scenario {
    Scenario::new(format!("unnoticed-d{depth}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let twin = [Master::new(GC).start(), Master::new(GC).start()];
            exec::idle().await;
            clock.pass(100).await; // nothing ends at the moment of a clean-up
            for t in &twin {
                let _ = add(t, "a", &cfg1()).await;
                let _ = add(t, "b", &cfg2()).await;
            }
            let mut hist = String::new();
            for _ in 0..depth {
                match pick(6) {
                    k @ (0 | 1) => {
                        let n = ["a", "b"][k];
                        hist += &format!("visit {n}; ");
                        let (x, y) = (visit(&twin[0], n).await, visit(&twin[1], n).await);
                        c.check(x == y, || format!("{hist}: {} and {}", short(&x), short(&y)));
                    }
                    2 => {
                        hist += "add a; ";
                        for t in &twin {
                            let r = add(t, "a", &cfg2()).await;
                            c.check(r.is_ok(), || short(&r));
                        }
                    }
                    k @ (3 | 4) => {
                        let ms = [600, 2200][k - 3];
                        hist += &format!("{ms} ms; ");
                        clock.pass(ms).await;
                    }
                    _ => {
                        hist += "snapshot; ";
                        let r = snapshot(&twin[0]).await;
                        c.check(r.is_ok(), || format!("{hist}: the snapshot fails"));
                    }
                }
                exec::idle().await;
            }
            clock.pass(2200).await;
            let (x, y) = (views(&twin[0]).await, views(&twin[1]).await);
            c.check(x.is_ok() && x == y, || format!("{hist} 2.2 s; with snapshots {x:?}, without {y:?}"));
            clock.pass(5000).await;
            let (x, y) = (visit(&twin[0], "a").await, visit(&twin[1], "a").await);
            c.check(x == y, || format!("{hist} 7.2 s, visit a; with snapshots {}, without {}", short(&x), short(&y)));
            c.obs(hist);
        })
    })
    .about(format!("all sequences of {depth} of: visit a, visit b, add a anew, 0.6 s, 2.2 s, snapshot, on a registry with clean-up; a twin without the snapshots agrees"))
    .shard(2)
}
/// Snapshots of sites whose names are alike.
fn snap_names() -> Scenario {
    Scenario::new("names", 0, move |c: Ctx| {
        exec::block_on(async move {
            let (x, y) = pick_names();
            let clock = Clock::default();
            let src = Master::new(100_000).start();
            let mut m = Model::new();
            for (n, g) in [(&x, cfg1()), (&y, cfg2())] {
                let _ = add(&src, n, &g).await;
                m.insert(n.clone(), MSite::new(&g));
            }
            for n in [&x, &y, &x, &x] {
                let _ = visit(&src, n).await;
                m.get_mut(n).unwrap().visit(0);
            }
            let what = format!("{x:?} and {y:?}");
            compare(&c, &src, &mut m, 0, &what).await;
            let Ok(s) = snapshot(&src).await else {
                return c.fail(format!("{what}: no snapshot"));
            };
            let s = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
            let dst = Master::new(100_000).start();
            let r = restore(&dst, s).await;
            c.check(r.is_ok(), || format!("{what}: {}", short(&r)));
            exec::idle().await;
            for _ in 0..3 {
                compare(&c, &dst, &mut m, clock.now(), &format!("restored {what}")).await;
                clock.pass(800).await;
            }
            for n in [&x, &y] {
                let want = m.get_mut(n).unwrap().visit(clock.now());
                let r = visit(&dst, n).await;
                c.check(r == Ok(Some(want)), || format!("restored {what}: a visit of {n:?}: {}", short(&r)));
            }
            c.obs(what);
        })
    })
    .about(format!("{}, as sites of a snapshot", pairs()))
    .shard(1)
}
/// A snapshot of many sites with many visitors.
fn snap_crowd(n: usize) -> Scenario {
    Scenario::new(format!("crowd-{n}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let src = Master::new(100_000).start();
            let mut m = Model::new();
            let extra = pick(2);
            for i in 0..n {
                let (s, g) = (format!("s{i}"), cfg(&[(i as u32 % 4, 1 + i as u32), (9, 5000), (20, 6000)], 1 + i as u64 % 3));
                let _ = add(&src, &s, &g).await;
                m.insert(s.clone(), MSite::new(&g));
                for _ in 0..(i % 7) * (1 + extra * 9) {
                    let _ = visit(&src, &s).await;
                    m.get_mut(&s).unwrap().visit(0);
                }
            }
            exec::idle().await;
            clock.pass(400).await;
            let Ok(s) = snapshot(&src).await else {
                return c.fail("no snapshot");
            };
            let dst = Master::new(100_000).start();
            let r = restore(&dst, s).await;
            c.check(r.is_ok(), || short(&r));
            exec::idle().await;
            let now = clock.now();
            for s in m.values_mut() {
                s.ends.iter_mut().for_each(|e| *e = now + s.cfg.duration * 1000);
            }
            for _ in 0..4 {
                if !compare(&c, &dst, &mut m, clock.now(), &format!("{n} sites restored")).await {
                    return;
                }
                clock.pass(900).await;
            }
            c.obs(format!("{n} {extra}"));
        })
    })
    .steps(4000 * n)
    .about(format!("{n} sites with up to 60 visitors each"))
}
/// One site in every state that some visits, their leaving and some more visits make.
fn snap_states() -> Scenario {
    Scenario::new("states", 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let g = [
                cfg(&[(1, 5), (2, 6), (3, 70)], 2),
                cfg(&[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (20, 60)], 3),
                cfg(&[(16, 7)], 1),
            ][pick(3)]
            .clone();
            let sizes: Vec<usize> = (0..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1025]).collect();
            let n = sizes[pick(sizes.len())];
            // they leave, and others come
            let then = [None, Some(0), Some(1), Some(2)][pick(4)];
            let target = pick(3);
            let later = [0, 1, 2, 5, 20][pick(5)];
            let src = Master::new(100_000).start();
            let _ = add(&src, "a", &g).await;
            let mut m = Model::from([("a".to_string(), MSite::new(&g))]);
            let mut hist = format!("{n} visits; ");
            for _ in 0..n {
                let _ = visit(&src, "a").await;
                m.get_mut("a").unwrap().visit(clock.now());
            }
            exec::idle().await;
            if let Some(k) = then {
                clock.pass(g.duration * 1000 + 200).await;
                hist += &format!("they leave; {k} visits; ");
                for _ in 0..k {
                    let _ = visit(&src, "a").await;
                    m.get_mut("a").unwrap().visit(clock.now());
                }
                exec::idle().await;
            }
            if !compare(&c, &src, &mut m, clock.now(), &hist).await {
                return;
            }
            let Ok(mut snap) = snapshot(&src).await else {
                return c.fail(format!("{hist}: no snapshot"));
            };
            if later % 2 == 0 {
                snap = serde_json::from_str(&serde_json::to_string(&snap).unwrap()).unwrap();
            }
            let dst = Master::new(100_000).start();
            match target {
                0 => hist += "restore into a fresh registry; ",
                1 => {
                    hist += "restore over a new site of the same name and levels; ";
                    let _ = add(&dst, "a", &g).await;
                }
                _ => {
                    hist += "restore over an idle site of other levels, which was visited once; ";
                    let _ = add(&dst, "a", &cfg(&[(0, 1), (9, 2)], 1)).await;
                    let _ = visit(&dst, "a").await;
                    exec::idle().await;
                    clock.pass(1200).await;
                }
            }
            // the source is of no interest any more; the model goes on from here
            let now = clock.now();
            let count = snap["a"].get_visitors() as usize;
            let r = restore(&dst, snap).await;
            c.check(r.is_ok(), || format!("{hist}: {}", short(&r)));
            exec::idle().await;
            m.get_mut("a").unwrap().ends = vec![now + g.duration * 1000; count];
            if !compare(&c, &dst, &mut m, now, &hist).await {
                return;
            }
            clock.pass(400).await;
            hist += &format!("0.4 s; {later} visits; ");
            for _ in 0..later {
                let got = visit(&dst, "a").await;
                let want = m.get_mut("a").unwrap().visit(clock.now());
                c.check(got == Ok(Some(want)), || format!("{hist}: {} instead of {want:?}", short(&got)));
            }
            exec::idle().await;
            for ms in [0, g.duration * 1000 - 500, 200, 200, 200] {
                clock.pass(ms).await;
                if !compare(&c, &dst, &mut m, clock.now(), &format!("{hist} then {ms} ms")).await {
                    return;
                }
            }
            let got = visit(&dst, "a").await;
            let want = m.get_mut("a").unwrap().visit(clock.now());
            c.check(got == Ok(Some(want)), || format!("{hist}: a visit in the end: {} instead of {want:?}", short(&got)));
            c.obs(hist);
        })
    })
    .steps(400_000)
    .about("a site of 3 kinds after 52 numbers of visits up to 1025, of which none or all have left, and 0-2 more; restored into a fresh registry and over two kinds of known sites; then 5 numbers of visits, looked at around the moments at which both leave")
    .shard(2)
}
/// visitor counts around the powers of two
fn any_counts() -> Vec<u32> {
    let mut ns: Vec<u32> = vec![0, u32::MAX - 9, u32::MAX / 2, 10_000_000];
    for k in 1..32 {
        ns.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    ns
}
/// A snapshot in which the three visitors of site a have become `n`
fn with_visitors(c: &Ctx, snap: HashMap<String, MCaptcha>, n: u32) -> Option<HashMap<String, MCaptcha>> {
    let mut v = serde_json::to_value(&snap).unwrap();
    let site = v["a"].as_object_mut().unwrap();
    let fields: Vec<String> = site.iter().filter(|(_, v)| v.as_u64() == Some(3)).map(|(k, _)| k.clone()).collect();
    if fields.len() != 1 {
        return None; // the number is not kept like that
    }
    site.insert(fields[0].clone(), n.into());
    let r = serde_json::from_value(v);
    c.check(r.is_ok(), || format!("a snapshot with {n} visitors cannot be read"));
    r.ok()
}
/// Snapshots with any number of visitors.
fn snap_counts() -> Scenario {
    Scenario::new("counts", 0, move |c: Ctx| {
        exec::block_on(async move {
            let ns = any_counts();
            let n = ns[pick(ns.len())];
            let later = [0u32, 1, 3][pick(3)];
            let target = pick(7);
            let clock = Clock::default();
            let g = cfg(&[(4, 5), (70_000, 6), (1 << 30, 70)], 2);
            let src = Master::new(100_000).start();
            let _ = add(&src, "a", &g).await;
            for _ in 0..3 {
                let _ = visit(&src, "a").await;
            }
            exec::idle().await;
            let Ok(snap) = snapshot(&src).await else {
                return c.fail("no snapshot");
            };
            let of_snap = snap.clone();
            let Some(snap) = with_visitors(&c, snap, n) else { return };
            c.check(snap["a"].get_visitors() == n, || format!("{n} visitors are read as {}", snap["a"].get_visitors()));
            let dst = Master::new(100_000).start();
            let what = match target {
                0 => "a fresh registry",
                1 => {
                    let _ = add(&dst, "a", &g).await;
                    "an unused site"
                }
                3..=6 => {
                    let k = [200, 1001, 70_000, 1 << 31][target - 3];
                    let _ = add(&dst, "a", &g).await;
                    let Some(other) = with_visitors(&c, of_snap, k) else { return };
                    let r = restore(&dst, other).await;
                    c.check(r.is_ok(), || short(&r));
                    exec::idle().await;
                    ["a site restored with 200 visitors", "a site restored with 1001 visitors", "a site restored with 70 000 visitors", "a site restored with 2^31 visitors"][target - 3]
                }
                _ => {
                    let _ = add(&dst, "a", &cfg(&[(0, 1), (9, 2)], 1)).await;
                    let _ = visit(&dst, "a").await;
                    let _ = visit(&dst, "a").await;
                    "a site with two visitors"
                }
            };
            let what = format!("{n} visitors restored into {what}");
            let r = restore(&dst, snap).await;
            c.check(r.is_ok(), || format!("{what}: {}", short(&r)));
            exec::idle().await;
            // a snapshot of the restored one is the same
            let count = |v: &CaptchaResult<BTreeMap<String, View>>| v.as_ref().ok().and_then(|v| v.get("a")).map(|v| v.count);
            let v = views(&dst).await;
            c.check(count(&v) == Some(n), || format!("{what}: {v:?}"));
            clock.pass(500).await;
            let mut level = 0;
            for i in 0..later {
                level = step_level(&g.levels, level, n + i + 1);
                let r = visit(&dst, "a").await;
                c.check(r == Ok(Some((2, g.levels[level].1))), || format!("{what}, visit {i}: {}", short(&r)));
            }
            exec::idle().await;
            for (ms, want) in [(0, n + later), (1300, n + later), (400, later), (200, later), (400, 0)] {
                clock.pass(ms).await;
                let v = views(&dst).await;
                c.check(count(&v) == Some(want), || format!("{what}, {later} visits 0.5 s later; {} ms after the restore: {v:?}, expected {want}", clock.now()));
            }
            c.obs(format!("{what} {later}"));
        })
    })
    .about("a snapshot with 97 numbers of visitors from 0 to 2^32-10 (all powers of two and their neighbours), restored into a fresh registry, an unused and a visited site, and sites that had 200, 1001, 70 000 and 2^31 visitors restored before; 0-3 more visits; counts around the moments at which both leave")
}
/// Restored visitors stay as long as the site in the snapshot says, whatever that is.
fn snap_durations() -> Scenario {
    Scenario::new("restored-durations", 0, move |c: Ctx| {
        exec::block_on(async move {
            // tokio's timers end at 2^36 ms
            let ds: Vec<u64> = super::system::durations().into_iter().filter(|d| *d < 20_000_000).collect();
            let d = ds[pick(ds.len())];
            let other = [None, Some(1), Some(d), Some(d + 5)][pick(4)];
            let later = pick(2) == 1;
            let g = cfg(&[(2, 5), (7, 70)], d);
            let src = Master::new(u64::MAX / 4).start();
            let _ = add(&src, "a", &g).await;
            for _ in 0..3 {
                let _ = visit(&src, "a").await;
            }
            exec::idle().await;
            // they are there already for some time
            if later && d > 1 {
                exec::pass_ms(d * 500, 1 << 40).await;
            }
            let Ok(snap) = snapshot(&src).await else {
                return c.fail("no snapshot");
            };
            let dst = Master::new(u64::MAX / 4).start();
            if let Some(o) = other {
                let _ = add(&dst, "a", &cfg(&[(3, 1), (9, 2)], o)).await;
                let _ = visit(&dst, "a").await;
            }
            let r = restore(&dst, snap).await;
            exec::idle().await;
            let mut counts = vec![];
            let mut v = |x: CaptchaResult<BTreeMap<String, View>>| counts.push(x.ok().and_then(|x| x.get("a").map(|v| v.count)));
            v(views(&dst).await);
            exec::pass_ms(d * 1000 - 400, 1 << 40).await;
            v(views(&dst).await);
            let again = visit(&dst, "a").await;
            c.check(matches!(again, Ok(Some((x, _))) if x == d), || format!("duration {d} s: a visit before they leave: {}", short(&again)));
            v(views(&dst).await);
            exec::pass_ms(800, 400).await;
            v(views(&dst).await);
            exec::pass_ms(d * 1000 - 1000, 1 << 40).await;
            v(views(&dst).await);
            exec::pass_ms(600, 300).await;
            v(views(&dst).await);
            let what = format!("a site of {d} s restored over {other:?}, {later}: {} then counts {counts:?}", short(&r));
            c.obs(&what);
            c.check(r.is_ok() && counts == [Some(3), Some(3), Some(4), Some(1), Some(1), Some(0)], || what.clone());
        })
    })
    .about("sites of 88 durations up to 194 days with three visitors, new or halfway through, restored into a fresh registry or over sites of other durations; a visit before they leave; counts around the moments at which both leave")
}
/// A snapshot that is restored over and over: visitors of a replaced state never count as
/// leaving, however often the state was replaced since.
fn snap_often(most: u32) -> Scenario {
    Scenario::new("restored-often", 0, move |c: Ctx| {
        exec::block_on(async move {
            let mut ks: Vec<u32> = (1..=20).collect();
            for e in 5..=most {
                ks.extend([(1 << e) - 1, 1 << e, (1 << e) + 1]);
            }
            ks.extend([50, 99, 100, 101, 999, 1000, 1001]);
            let k = ks[pick(ks.len())];
            let visits_between = pick(2) == 1 && k <= 1100;
            let clock = Clock::default();
            let g = cfg(&[(4, 5), (70_000, 6)], 2);
            let m = Master::new(100_000).start();
            let _ = add(&m, "a", &g).await;
            let _ = visit(&m, "a").await;
            let _ = visit(&m, "a").await;
            exec::idle().await;
            let Ok(snap) = snapshot(&m).await else {
                return c.fail("no snapshot");
            };
            clock.pass(500).await;
            let _ = visit(&m, "a").await;
            clock.pass(500).await;
            for _ in 0..k {
                let _ = restore(&m, snap.clone()).await;
                if visits_between {
                    let _ = visit(&m, "a").await;
                }
                exec::idle().await;
            }
            let extra = visits_between as u32;
            let what = format!("two visitors at 0 s, one more at 0.5 s; at 1 s the snapshot with two is restored {k} times{}", if visits_between { ", each time followed by a visit" } else { "" });
            for (ms, want) in [(100, 2 + extra), (600, 2 + extra), (400, 2 + extra), (500, 2 + extra), (300, 2 + extra), (300, 0), (2000, 0)] {
                clock.pass(ms).await;
                let v = views(&m).await;
                let n = v.as_ref().ok().and_then(|v| v.get("a")).map(|v| v.count);
                c.check(n == Some(want), || format!("{what}; {} ms: {v:?}, expected {want}", clock.now()));
            }
            c.obs(what);
        })
    })
    .about(format!("a snapshot restored 1-20, 50, 99-101, 999-1001 times and all powers of two from 32 to 2^{most} with their neighbours, while visitors of replaced states are due"))
}
pub fn c16(t: Tier) -> Vec<Scenario> {
    vec![snap_seq(t.or(4, 6), t.or(5, 6)), snap_twin(t.or(6, 7)), snap_names(), snap_states(), snap_counts(), snap_durations(), snap_often(t.or(12, 16)), snap_crowd(t.or(1100, 3000))]
}

#[allow(dead_code)]
fn unused(_: CaptchaError) {}
