//! C04, C05: tokens and the in-memory cache.
use super::common::*;
use actix::prelude::*;
use libmcaptcha::errors::CaptchaResult;
use libmcaptcha::master::embedded::master::Master;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tok {
    Live,
    /// validated for another site: may have been used up by that
    Maybe,
    Dead,
}
struct T {
    token: String,
    key: &'static str,
    end: u64,
    st: Tok,
}
fn validate_model(t: &mut T, key: &str, now: u64) -> (bool, bool) {
    // (true is allowed, false is allowed)
    if now >= t.end {
        t.st = Tok::Dead;
    }
    match (t.st, key == t.key) {
        (Tok::Live, true) => (true, false),
        (Tok::Live, false) => (false, true),
        (Tok::Maybe, true) => (true, true),
        _ => (false, true),
    }
}
fn validate_done(t: &mut T, key: &str, got: bool) {
    if key == t.key || got {
        t.st = Tok::Dead;
    } else if t.st == Tok::Live {
        t.st = Tok::Maybe;
    }
}

/// Sequences of issue, validation and time steps.
fn token_seq(depth: usize) -> Scenario {
    Scenario::new(format!("tokens-d{depth}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let cache = HashCache::default().start();
            let sys = mk_system(Master::new(100_000).start(), cache.clone(), 1, 5);
            let mut ts: Vec<T> = vec![];
            let mut hist = String::new();
            for _ in 0..depth {
                let now = clock.now();
                let k = pick(4 + 2 * ts.len().min(3));
                match k {
                    0 | 1 => {
                        let (key, d) = [("a", 1), ("b", 2)][k];
                        let token = format!("token{}", ts.len());
                        hist += &format!("issue {token} for {key} ({d} s); ");
                        let r = ask(
                            &cache,
                            cm::CacheResult {
                                token: token.clone(),
                                key: key.into(),
                                duration: d,
                            },
                        )
                        .await;
                        c.check(r.is_ok(), || format!("{hist}: {}", short(&r)));
                        ts.push(T {
                            token,
                            key,
                            end: now + d * 1000,
                            st: Tok::Live,
                        });
                    }
                    2 => {
                        hist += "0.6 s; ";
                        clock.pass(600).await;
                    }
                    3 => {
                        hist += "unknown token; ";
                        for t in ["", "token", "token99", "a"] {
                            let r = validate(&sys, t, "a").await;
                            c.check(r == Ok(false), || format!("{hist} {t:?}: {}", short(&r)));
                        }
                    }
                    k => {
                        let i = (k - 4) / 2;
                        let i = ts.len() - 1 - i;
                        let t = &mut ts[i];
                        let key = match ((k - 4) % 2, t.key) {
                            (0, k) => k,
                            (_, "a") => "b",
                            _ => "a",
                        };
                        hist += &format!("validate {} for {key}; ", t.token);
                        let (yes, no) = validate_model(t, key, now);
                        let r = validate(&sys, &t.token, key).await;
                        c.check(matches!(r, Ok(true) if yes) || matches!(r, Ok(false) if no), || {
                            format!("{hist}: {}, accepted is allowed: {yes}, rejected is allowed: {no}", short(&r))
                        });
                        validate_done(t, key, r == Ok(true));
                    }
                }
                exec::idle().await;
            }
            for t in &mut ts {
                let (yes, no) = validate_model(t, t.key, clock.now());
                let r = validate(&sys, &t.token, t.key).await;
                c.check(matches!(r, Ok(true) if yes) || matches!(r, Ok(false) if no), || {
                    format!("{hist}; finally {}: {}, accepted is allowed: {yes}, rejected is allowed: {no}", t.token, short(&r))
                });
            }
            c.obs(hist);
        })
    })
    .about(format!("all sequences of {depth} of: issue (1 s or 2 s), validate one of the last 3 tokens for its own or another site, an unknown token, 0.6 s"))
    .shard(2)
}

/// Tokens as the system issues them live as long as their site says.
fn token_e2e() -> Scenario {
    Scenario::new("tokens-end-to-end", 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let sys = mk_system(Master::new(100_000).start(), HashCache::default().start(), 1, 5);
            let _ = add(&sys.master, "a", &cfg(&[(5, 1)], 1)).await;
            let _ = add(&sys.master, "b", &cfg(&[(5, 2)], 3)).await;
            let id = ["a", "b"][pick(2)];
            let d = [1000, 3000][(id == "b") as usize];
            let Ok(Some(p)) = sys.get_pow(id.into()).await else {
                c.fail("no challenge");
                return;
            };
            // the challenge is worked on for a while: the token's time starts when it is issued
            let wait = [0, 600, d - 200][pick(3)];
            clock.pass(wait).await;
            let w = good_work(&p.string, p.difficulty_factor, id);
            let r = sys.verify_pow(w, "ip".into()).await;
            let Ok((token, _)) = r else {
                c.fail(format!("no token: {}", short(&r)));
                return;
            };
            let when = [0, 600, d - 200, d + 200, d + 1200][pick(5)];
            clock.pass(when).await;
            let wrong_first = pick(2) == 1;
            if wrong_first {
                let r = validate(&sys, &token, if id == "a" { "b" } else { "a" }).await;
                c.check(r == Ok(false), || format!("accepted for another site: {}", short(&r)));
            }
            let r = validate(&sys, &token, id).await;
            let want = when < d;
            c.obs(format!("{id} work after {wait}, validation after {when}, wrong site first {wrong_first}: {}", short(&r)));
            if !wrong_first || !want {
                c.check(r == Ok(want), || format!("token of {id} ({d} ms) validated after {when} ms: {}", short(&r)));
            }
            let r = validate(&sys, &token, id).await;
            c.check(r == Ok(false), || format!("accepted a second time: {}", short(&r)));
        })
    })
    .about("challenge, work, token and validation at and around the ends of all lifetimes")
    .shard(2)
}

/// Concurrent validations: tasks of one executor, optionally a second executor thread.
fn token_race(n: usize, threads: bool, bound: u32) -> Scenario {
    Scenario::new(
        format!("token-race-{n}{}-b{bound}", if threads { "-2exec" } else { "" }),
        bound,
        move |c: Ctx| {
            exec::block_on(async move {
                let wrong = pick(2) == 1; // the last one names another site
                let expiring = pick(2) == 1;
                let cache = HashCache::default().start();
                let sys = std::sync::Arc::new(mk_system(Master::new(100_000).start(), cache.clone(), 1, 5));
                for (t, d) in [("t", 1), ("u", 5)] {
                    let r = ask(
                        &cache,
                        cm::CacheResult {
                            token: t.into(),
                            key: "a".into(),
                            duration: d,
                        },
                    )
                    .await;
                    c.check(r.is_ok(), || short(&r));
                }
                exec::idle().await;
                if expiring {
                    exec::advance_ms(1000);
                }
                exec::explore_tasks(true);
                let j = Join::new();
                let mut other = None;
                for i in 0..n {
                    let key = if wrong && i + 1 == n { "b" } else { "a" };
                    let sys = sys.clone();
                    if threads && i == 0 {
                        let (tx, rx) = tokio::sync::oneshot::channel();
                        let h = std::thread::spawn(move || {
                            exec::block_on(async move {
                                let r = validate(&sys, "t", key).await.map_err(|e| e2s(&e));
                                drop(sys);
                                let _ = tx.send(r);
                            })
                        });
                        other = Some((h, rx));
                        continue;
                    }
                    j.go(async move { validate(&sys, "t", key).await.map_err(|e| e2s(&e)) });
                }
                let mut res = vec![];
                if let Some((h, rx)) = other {
                    res.push(rx.await.ok());
                    exec::idle().await;
                    let _ = h.join();
                }
                res.extend(j.settle().await);
                exec::explore_tasks(false);
                c.obs(format!("wrong site {wrong}, expiring {expiring}: {res:?}"));
                let yes = res.iter().filter(|r| **r == Some(Ok(true))).count();
                let no = res.iter().filter(|r| **r == Some(Ok(false))).count();
                c.check(yes + no == n, || format!("{res:?}: not all are answered"));
                c.check(yes <= 1, || format!("{res:?}: accepted {yes} times"));
                if !wrong && !expiring {
                    c.check(yes == 1, || format!("{res:?}: a valid token is never accepted"));
                }
                if wrong {
                    c.check(res[n - 1] == Some(Ok(false)), || format!("{res:?}: accepted for another site"));
                }
                let r = validate(&sys, "u", "a").await;
                c.check(r == Ok(true), || format!("another token: {}", short(&r)));
                drop(Rc::new(sys));
            })
        },
    )
    .about(format!("{n} concurrent validations of one token (all for its site, or one for another; live or expiring), every interleaving up to {bound} deviations"))
}

/// Sites and tokens whose names are alike.
fn token_names() -> Scenario {
    Scenario::new("token-names", 0, move |c: Ctx| {
        exec::block_on(async move {
            let (x, y) = pick_names();
            let cache = HashCache::default().start();
            let sys = mk_system(Master::new(100_000).start(), cache.clone(), 1, 5);
            let put = |token: &str, key: &str| {
                let m = cm::CacheResult { token: token.into(), key: key.into(), duration: 5 };
                let cache = cache.clone();
                async move { ask(&cache, m).await }
            };
            for (t, k) in [("t1", &x), ("t2", &x), ("t3", &y)] {
                let r = put(t, k).await;
                c.check(r.is_ok(), || short(&r));
            }
            // a token of that name, and one whose name is not stored
            let r = put(&x, "k").await;
            c.check(r.is_ok(), || short(&r));
            let mut no = |what: &str, r: CaptchaResult<bool>| {
                c.check(r == Ok(false), || format!("{x:?}, {y:?}: {what}: {}", short(&r)));
            };
            no("a token of another site", validate(&sys, "t1", &y).await);
            no("an unknown token", validate(&sys, &y, "k").await);
            no("a site as token", validate(&sys, &y, &x).await);
            let r = validate(&sys, "t2", &x).await;
            c.check(r == Ok(true), || format!("{x:?}, {y:?}: t2 for its site: {}", short(&r)));
            let r = validate(&sys, "t3", &y).await;
            c.check(r == Ok(true), || format!("{x:?}, {y:?}: t3 for its site: {}", short(&r)));
            let r = validate(&sys, &x, "k").await;
            c.check(r == Ok(true), || format!("{x:?}, {y:?}: the token of that name: {}", short(&r)));
            let mut no = |what: &str, r: CaptchaResult<bool>| {
                c.check(r == Ok(false), || format!("{x:?}, {y:?}: {what}: {}", short(&r)));
            };
            no("t2 again", validate(&sys, "t2", &x).await);
            no("the token of that name again", validate(&sys, &x, "k").await);
            c.obs(format!("{x} {y}"));
        })
    })
    .about(format!("{}, as sites and as tokens", pairs()))
    .shard(1)
}
/// Many tokens at once: none is accepted twice or lost.
fn token_crowd(n: usize) -> Scenario {
    Scenario::new(format!("token-crowd-{n}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let order = pick(3);
            let cache = HashCache::default().start();
            let sys = mk_system(Master::new(100_000).start(), cache.clone(), 1, 5);
            for b in batches(n) {
                for r in at_once(b.map(|i| {
                    let m = cm::CacheResult { token: format!("{i:x}"), key: format!("site{}", i % 7), duration: 2 + (i % 3) as u64 };
                    ask(&cache, m)
                }))
                .await
                {
                    c.check(r.is_ok(), || short(&r));
                }
            }
            exec::pass_ms(2400, 200).await;
            for b in batches(n) {
                for again in [false, true] {
                    let go = b.clone().map(|k| {
                        let i = [k, n - 1 - k, (k * 7919) % n][order];
                        let (c, sys) = (&c, &sys);
                        async move {
                            let r = validate(sys, &format!("{i:x}"), &format!("site{}", i % 7)).await;
                            c.check(r == Ok(i % 3 > 0 && !again), || format!("token {i} of {n}, again: {again}: {}", short(&r)));
                        }
                    });
                    at_once(go).await;
                }
                if c.failed() {
                    return;
                }
            }
            c.obs(format!("{n} {order}"));
        })
    })
    .steps(5_000_000)
    .about(format!("{n} tokens of 7 sites and 3 lifetimes at once, a third of them expired, all validated twice in 3 orders"))
}
pub fn c04(t: Tier) -> Vec<Scenario> {
    vec![
        token_names(),
        super::system::whole_lives(),
        super::system::burst(t.or(super::system::BURSTS, super::system::MORE_BURSTS)),
        token_crowd(t.or(10_007, 20_011)),
        token_seq(t.or(6, 7)),
        token_e2e(),
        token_race(2, false, t.or(4, 6)),
        token_race(3, false, t.or(3, 4)),
        token_race(2, true, t.or(3, 4)),
        token_race(3, true, t.or(2, 3)),
    ]
}

// ---- C05 -----------------------------------------------------------------------------
struct E {
    string: String,
    key: String,
    difficulty: u32,
    duration: u64,
    end: u64,
    there: bool,
}
fn lifetimes(depth: usize) -> Scenario {
    Scenario::new(format!("lifetimes-d{depth}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let cache = HashCache::default().start();
            let mut hist = String::new();
            let mut ch: Vec<E> = vec![];
            let mut tk: Vec<E> = vec![];
            for _ in 0..depth {
                let now = clock.now();
                let k = pick(5 + ch.len().min(2) + tk.len().min(2));
                if k < 4 {
                    let d = 1 + (k as u64 % 2);
                    let list = if k < 2 { &mut ch } else { &mut tk };
                    let i = list.len();
                    // both kinds use the same strings
                    let e = E {
                        string: format!("string{i}"),
                        key: format!("site{}", i % 2),
                        difficulty: 7 * i as u32 + d as u32,
                        duration: d,
                        end: now + d * 1000,
                        there: true,
                    };
                    let r = if k < 2 {
                        ask(
                            &cache,
                            cm::CachePoW {
                                string: e.string.clone(),
                                difficulty_factor: e.difficulty,
                                duration: d,
                                key: e.key.clone(),
                            },
                        )
                        .await
                    } else {
                        ask(
                            &cache,
                            cm::CacheResult {
                                token: e.string.clone(),
                                key: e.key.clone(),
                                duration: d,
                            },
                        )
                        .await
                    };
                    hist += &format!("store {} {i} ({d} s); ", if k < 2 { "challenge" } else { "token" });
                    c.check(r.is_ok(), || format!("{hist}: {}", short(&r)));
                    list.push(e);
                } else if k == 4 {
                    hist += "0.6 s; ";
                    clock.pass(600).await;
                } else if k < 5 + ch.len().min(2) {
                    let i = ch.len() - 1 - (k - 5);
                    hist += &format!("take challenge {i}; ");
                    take_challenge(&c, &cache, &mut ch[i], now, &hist).await;
                } else {
                    let i = tk.len() - 1 - (k - 5 - ch.len().min(2));
                    hist += &format!("take token {i}; ");
                    take_token(&c, &cache, &mut tk[i], now, &hist).await;
                }
                exec::idle().await;
            }
            let hist = format!("{hist} read all");
            for e in &mut ch {
                take_challenge(&c, &cache, e, clock.now(), &hist).await;
            }
            for e in &mut tk {
                take_token(&c, &cache, e, clock.now(), &hist).await;
            }
            // long after: still serving
            clock.pass(2400).await;
            for e in &mut ch {
                take_challenge(&c, &cache, e, clock.now(), &hist).await;
            }
            c.obs(hist);
        })
    })
    .about(format!("all sequences of {depth} of: store a challenge or token (1 s or 2 s), take one of the last two of each kind, 0.6 s; all entries read at the end"))
    .shard(2)
}
async fn take_challenge(c: &Ctx, cache: &Addr<HashCache>, e: &mut E, now: u64, hist: &str) {
    let want = (e.there && now < e.end).then(|| cm::CachedPoWConfig {
        key: e.key.clone(),
        difficulty_factor: e.difficulty,
        duration: e.duration,
    });
    e.there = false;
    let got = ask(
        cache,
        cm::RetrivePoW(cm::VerifyCaptchaResult {
            token: e.string.clone(),
            key: e.key.clone(),
        }),
    )
    .await;
    c.check(got.as_ref().ok() == Some(&want), || {
        format!("{hist} (t={now}): challenge {} gives {}, expected {want:?}", e.string, short(&got))
    });
}
async fn take_token(c: &Ctx, cache: &Addr<HashCache>, e: &mut E, now: u64, hist: &str) {
    let want = e.there && now < e.end;
    e.there = false;
    let got = ask(
        cache,
        cm::VerifyCaptchaResult {
            token: e.string.clone(),
            key: e.key.clone(),
        },
    )
    .await;
    c.check(got == Ok(want), || {
        format!("{hist} (t={now}): token {} gives {}, expected {want}", e.string, short(&got))
    });
}
fn long_lifetimes() -> Scenario {
    const D: [u64; 14] = [1, 2, 30, 59, 60, 3600, 65_535, 65_536, 4_294_967, 4_294_968, 10_000_000, 16_777_217, 30_000_000, 33_554_433];
    Scenario::new("long-lifetimes", 0, move |c: Ctx| {
        exec::block_on(async move {
            let d = D[pick(D.len())];
            let before = pick(2) == 1;
            let cache = HashCache::default().start();
            let mut e: Vec<E> = (0..2)
                .map(|i| E {
                    string: format!("s{i}"),
                    key: "k".into(),
                    difficulty: u32::MAX - i,
                    duration: d,
                    end: d * 1000,
                    there: true,
                })
                .collect();
            let r = ask(
                &cache,
                cm::CachePoW {
                    string: "s0".into(),
                    difficulty_factor: u32::MAX,
                    duration: d,
                    key: "k".into(),
                },
            )
            .await;
            c.check(r.is_ok(), || short(&r));
            let r = ask(
                &cache,
                cm::CacheResult {
                    token: "s1".into(),
                    key: "k".into(),
                    duration: d,
                },
            )
            .await;
            c.check(r.is_ok(), || short(&r));
            exec::pass_ms(d * 1000 - 400, 1 << 40).await;
            let mut now = d * 1000 - 400;
            if !before {
                exec::pass_ms(800, 400).await;
                now += 800;
            }
            let h = format!("entries of {d} s");
            take_challenge(&c, &cache, &mut e[0], now, &h).await;
            take_token(&c, &cache, &mut e[1], now, &h).await;
            take_challenge(&c, &cache, &mut e[0], now, &h).await;
            take_token(&c, &cache, &mut e[1], now, &h).await;
            c.obs(format!("{d} {before}"));
        })
    })
    .about("both kinds taken twice shortly before and after the end of lifetimes from 1 s to 388 days")
}
/// Two entries of either kind under strings and for sites that are alike.
fn entry_names() -> Scenario {
    Scenario::new("entry-names", 0, move |c: Ctx| {
        exec::block_on(async move {
            let (x, y) = pick_names();
            let cache = HashCache::default().start();
            let (mut ch, mut tk) = (vec![], vec![]);
            for (i, (s, k)) in [(&x, &y), (&y, &x)].into_iter().enumerate() {
                let d = 1 + i as u64;
                let e = || E { string: s.clone(), key: k.clone(), difficulty: 5 + i as u32, duration: d, end: d * 1000, there: true };
                let r = ask(&cache, cm::CachePoW { string: s.clone(), difficulty_factor: 5 + i as u32, duration: d, key: k.clone() }).await;
                c.check(r.is_ok(), || short(&r));
                ch.push(e());
                // (a token of half a second more than the challenge of the same string)
                let r = ask(&cache, cm::CacheResult { token: s.clone(), key: k.clone(), duration: 3 - d }).await;
                c.check(r.is_ok(), || short(&r));
                tk.push(E { duration: 3 - d, end: (3 - d) * 1000, ..e() });
            }
            let h = format!("{x:?}, {y:?}");
            let order = pick(4);
            let late = pick(2) == 1;
            let mut now = 0;
            if late {
                exec::pass_ms(1400, 200).await;
                now = 1400;
            }
            for i in 0..4 {
                match (order + i) % 4 {
                    k @ (0 | 1) => take_challenge(&c, &cache, &mut ch[k], now, &h).await,
                    k => take_token(&c, &cache, &mut tk[k - 2], now, &h).await,
                }
            }
            c.obs(format!("{h} {order} {late}"));
        })
    })
    .about(format!("{}, as strings and sites of four entries, taken in 4 orders, all alive or half of them expired", pairs()))
    .shard(2)
}
/// Many entries of both kinds at once.
fn entry_crowd(n: usize) -> Scenario {
    Scenario::new(format!("entry-crowd-{n}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let at = [0u64, 1400, 2400][pick(3)];
            let cache = HashCache::default().start();
            let (mut ch, mut tk) = (vec![], vec![]);
            for b in batches(n) {
                let go = b.map(|i| {
                    let d = 1 + i as u64 % 3;
                    let string = format!("{i:x}");
                    let key = format!("k{}", i % 5);
                    let e = || E { string: string.clone(), key: key.clone(), difficulty: i as u32, duration: d, end: d * 1000, there: true };
                    ch.push(e());
                    tk.push(e());
                    let (c, cache) = (&c, &cache);
                    async move {
                        let r = ask(cache, cm::CachePoW { string: string.clone(), difficulty_factor: i as u32, duration: d, key: key.clone() }).await;
                        c.check(r.is_ok(), || short(&r));
                        let r = ask(cache, cm::CacheResult { token: string, key, duration: d }).await;
                        c.check(r.is_ok(), || short(&r));
                    }
                });
                at_once(go).await;
            }
            if at > 0 {
                exec::pass_ms(at, 200).await;
            }
            for (h, k) in ch.chunks_mut(15).zip(tk.chunks_mut(15)).rev() {
                at_once(h.iter_mut().rev().map(|e| take_challenge(&c, &cache, e, at, ""))).await;
                at_once(k.iter_mut().rev().map(|e| take_token(&c, &cache, e, at, ""))).await;
                at_once(h.iter_mut().step_by(3).map(|e| take_challenge(&c, &cache, e, at, "again"))).await;
                at_once(k.iter_mut().step_by(3).map(|e| take_token(&c, &cache, e, at, "again"))).await;
                if c.failed() {
                    return;
                }
            }
            c.obs(format!("{n} {at}"));
        })
    })
    .steps(5_000_000)
    .about(format!("{n} challenges and as many tokens of three lifetimes at once, taken at three moments"))
}
pub fn c05(t: Tier) -> Vec<Scenario> {
    vec![lifetimes(t.or(6, 7)), long_lifetimes(), entry_names(), entry_crowd(t.or(10_007, 20_011))]
}
