//! C23: the system on scripted backends that fail in every way at every request.
use super::common::*;
use actix::prelude::{Actor, Addr, ActorContext, AsyncContext, Context, Handler, Message, MessageResult};
use libmcaptcha::errors::{CaptchaError, CaptchaResult};
use libmcaptcha::master::messages as mm;
use libmcaptcha::master::AddVisitorResult;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use tokio::sync::oneshot::{channel, Receiver, Sender};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Good,
    /// good, but only after a second
    Late,
    /// nothing is there: unknown site, unknown string, wrong token
    Nothing,
    Error,
    /// the answer is dropped at once
    Dropped,
    /// the answer is dropped after a second
    DroppedLate,
    /// the actor ends while it handles the request
    Stops,
}
const OUTS: [Out; 7] = [
    Out::Good,
    Out::Late,
    Out::Nothing,
    Out::Error,
    Out::Dropped,
    Out::DroppedLate,
    Out::Stops,
];
#[derive(Default)]
struct Log {
    faults: Cell<bool>,
    /// the one kind of request that goes wrong, and how
    always: Cell<Option<(&'static str, Out)>>,
    /// what the cache says about every challenge: difficulty, duration, site
    odd: Cell<Option<(u32, u64, &'static str)>>,
    /// what was done with each request
    outs: RefCell<Vec<(&'static str, Out)>>,
    visits: Cell<u32>,
    challenges: RefCell<BTreeMap<String, (u32, u64, String)>>,
    tokens: RefCell<BTreeMap<String, (u64, String)>>,
    /// ends the registry and the cache
    kill: Cell<(bool, bool)>,
}
type L = Rc<Log>;
impl Log {
    fn out(&self, what: &'static str) -> Out {
        let o = match self.always.get() {
            Some((w, o)) if w == what => o,
            Some(_) => Out::Good,
            None if self.faults.get() => OUTS[pick(OUTS.len())],
            None => Out::Good,
        };
        self.outs.borrow_mut().push((what, o));
        o
    }
    fn last(&self, what: &str) -> Option<Out> {
        self.outs.borrow().iter().rev().find(|o| o.0 == what).map(|o| o.1)
    }
    /// something went wrong with a request that was made
    fn trouble(&self) -> bool {
        self.outs.borrow().iter().any(|o| !good(Some(o.1)))
    }
    fn clear(&self) {
        self.outs.borrow_mut().clear()
    }
}
/// answers as told; `nothing` is what there is to say if there is nothing
fn respond<T: 'static>(o: Out, good: impl FnOnce() -> T, nothing: Option<T>) -> (Receiver<CaptchaResult<T>>, bool) {
    let (tx, rx): (Sender<CaptchaResult<T>>, _) = channel();
    match o {
        Out::Good => drop(tx.send(Ok(good()))),
        Out::Late => {
            let v = good();
            exec::spawn(async move {
                tokio::time::sleep(std::time::Duration::from_secs(1)).await;
                let _ = tx.send(Ok(v));
            });
        }
        Out::Nothing => {
            let _ = tx.send(nothing.ok_or(CaptchaError::MCaptchaRedisModuleError));
        }
        Out::Error => drop(tx.send(Err(CaptchaError::MCaptchaRedisModuleError))),
        Out::Dropped | Out::Stops => drop(tx),
        Out::DroppedLate => exec::spawn(async move {
            tokio::time::sleep(std::time::Duration::from_secs(1)).await;
            drop(tx);
        }),
    }
    (rx, o == Out::Stops)
}

struct Registry(L);
impl Actor for Registry {
    type Context = Context<Self>;
    fn started(&mut self, ctx: &mut Self::Context) {
        ctx.run_interval(std::time::Duration::from_millis(100), |a, ctx| {
            if a.0.kill.get().0 {
                ctx.stop();
            }
        });
    }
}
impl libmcaptcha::master::Master for Registry {}
impl Handler<mm::AddVisitor> for Registry {
    type Result = MessageResult<mm::AddVisitor>;
    fn handle(&mut self, _: mm::AddVisitor, ctx: &mut Self::Context) -> Self::Result {
        let o = self.0.out("visit");
        let n = self.0.visits.get();
        let (rx, stop) = respond(
            o,
            || {
                self.0.visits.set(n + 1);
                Some(AddVisitorResult {
                    duration: 60 + n as u64,
                    difficulty_factor: 2 + n,
                })
            },
            Some(None),
        );
        if stop {
            ctx.stop();
        }
        MessageResult(rx)
    }
}
macro_rules! plain {
    ($($m:ty),*) => {$(
        impl Handler<$m> for Registry {
            type Result = MessageResult<$m>;
            fn handle(&mut self, _: $m, _: &mut Self::Context) -> Self::Result {
                MessageResult(channel().1)
            }
        }
    )*};
}
plain!(mm::AddSite, mm::Rename, mm::RemoveCaptcha, mm::SetInternalData, mm::GetInternalData);

struct Cache(L);
impl Actor for Cache {
    type Context = Context<Self>;
    fn started(&mut self, ctx: &mut Self::Context) {
        ctx.run_interval(std::time::Duration::from_millis(100), |a, ctx| {
            if a.0.kill.get().1 {
                ctx.stop();
            }
        });
    }
}
impl libmcaptcha::cache::Save for Cache {}
impl Handler<cm::CachePoW> for Cache {
    type Result = MessageResult<cm::CachePoW>;
    fn handle(&mut self, m: cm::CachePoW, ctx: &mut Self::Context) -> Self::Result {
        let (rx, stop) = respond(
            self.0.out("store challenge"),
            || {
                self.0.challenges.borrow_mut().insert(m.string, (m.difficulty_factor, m.duration, m.key));
            },
            None,
        );
        if stop {
            ctx.stop();
        }
        MessageResult(rx)
    }
}
impl Handler<cm::RetrivePoW> for Cache {
    type Result = MessageResult<cm::RetrivePoW>;
    fn handle(&mut self, m: cm::RetrivePoW, ctx: &mut Self::Context) -> Self::Result {
        let (rx, stop) = respond(
            self.0.out("take challenge"),
            || {
                let mut c = self.0.challenges.borrow_mut().remove(&m.0.token);
                if let Some((d, duration, key)) = self.0.odd.get() {
                    c = Some((d, duration, key.into()));
                }
                c.map(|(d, duration, key)| cm::CachedPoWConfig {
                    key,
                    difficulty_factor: d,
                    duration,
                })
            },
            Some(None),
        );
        if stop {
            ctx.stop();
        }
        MessageResult(rx)
    }
}
impl Handler<cm::CacheResult> for Cache {
    type Result = MessageResult<cm::CacheResult>;
    fn handle(&mut self, m: cm::CacheResult, ctx: &mut Self::Context) -> Self::Result {
        let (rx, stop) = respond(
            self.0.out("store token"),
            || {
                self.0.tokens.borrow_mut().insert(m.token, (m.duration, m.key));
            },
            None,
        );
        if stop {
            ctx.stop();
        }
        MessageResult(rx)
    }
}
impl Handler<cm::VerifyCaptchaResult> for Cache {
    type Result = MessageResult<cm::VerifyCaptchaResult>;
    fn handle(&mut self, m: cm::VerifyCaptchaResult, ctx: &mut Self::Context) -> Self::Result {
        let (rx, stop) = respond(
            self.0.out("validate"),
            || self.0.tokens.borrow_mut().remove(&m.token).map(|t| t.1 == m.key).unwrap_or(false),
            Some(false),
        );
        if stop {
            ctx.stop();
        }
        MessageResult(rx)
    }
}
impl Handler<cm::DeletePoW> for Cache {
    type Result = MessageResult<cm::DeletePoW>;
    fn handle(&mut self, m: cm::DeletePoW, _: &mut Self::Context) -> Self::Result {
        self.0.challenges.borrow_mut().remove(&m.0);
        MessageResult(Ok(()))
    }
}
impl Handler<cm::DeleteCaptchaResult> for Cache {
    type Result = MessageResult<cm::DeleteCaptchaResult>;
    fn handle(&mut self, m: cm::DeleteCaptchaResult, _: &mut Self::Context) -> Self::Result {
        self.0.tokens.borrow_mut().remove(&m.token);
        MessageResult(Ok(()))
    }
}

type MSys = System<Cache, Registry>;
fn mk(l: &L) -> Rc<MSys> {
    Rc::new(
        SystemBuilder::default()
            .master(Registry(l.clone()).start())
            .cache(Cache(l.clone()).start())
            .pow(pow_config(SALT))
            .runners(1)
            .queue_length(10)
            .build(),
    )
}
/// runs one request to its answer, letting up to 5 s pass
async fn answer<T: 'static>(f: impl std::future::Future<Output = T> + 'static) -> Option<T> {
    let j = Join::new();
    j.go(f);
    exec::idle().await;
    for _ in 0..10 {
        if j.all_done() {
            break;
        }
        exec::pass_ms(500, 500).await;
    }
    j.take().pop().unwrap()
}
fn good(o: Option<Out>) -> bool {
    matches!(o, Some(Out::Good | Out::Late))
}
/// a challenge that is good to go, or none; checks what is required of the request
async fn ask_challenge(c: &Ctx, l: &L, s: &Rc<MSys>, hist: &mut String, dead: bool) -> Option<PoWConfig> {
    l.clear();
    let s2 = s.clone();
    let r = answer(async move { s2.get_pow("a".into()).await }).await;
    *hist += &format!("challenge request {:?}; ", l.outs.borrow());
    let Some(r) = r else {
        c.fail(format!("{hist}: the request for a challenge is never answered"));
        return None;
    };
    let fine = good(l.last("visit")) && good(l.last("store challenge")) && !dead;
    match r {
        Ok(Some(p)) => {
            c.check(fine, || format!("{hist}: a challenge is handed out"));
            let n = l.visits.get() - 1;
            let want = (2 + n, 60 + n as u64, "a".to_string());
            let got = l.challenges.borrow().get(&p.string).cloned();
            c.check(got == Some(want.clone()) && p.difficulty_factor == want.0, || {
                format!("{hist}: {p:?} is handed out, the cache has {got:?}, expected {want:?}")
            });
            Some(p)
        }
        r => {
            c.check(dead || l.trouble(), || format!("{hist}: {}", short(&r)));
            None
        }
    }
}
async fn submit(c: &Ctx, l: &L, s: &Rc<MSys>, w: Work, d: u32, hist: &mut String, dead: bool) -> Option<String> {
    l.clear();
    let s2 = s.clone();
    let right = work_is_correct(&w, d);
    let r = answer(async move { s2.verify_pow(w, "ip".into()).await }).await;
    *hist += &format!("submission (correct: {right}) {:?}; ", l.outs.borrow());
    let Some(r) = r else {
        c.fail(format!("{hist}: the submission is never answered"));
        return None;
    };
    let fine = right && good(l.last("take challenge")) && good(l.last("store token")) && !dead;
    match r {
        Ok((t, got)) => {
            c.check(fine && got == d, || format!("{hist}: a token for difficulty {got}"));
            let there = l.tokens.borrow().get(&t).cloned();
            c.check(there.as_ref().map(|x| x.1.as_str()) == Some("a"), || {
                format!("{hist}: the token is handed out, the cache has {there:?}")
            });
            Some(t)
        }
        r => {
            c.check(!right || dead || l.trouble(), || format!("{hist}: {}", short(&r)));
            None
        }
    }
}
async fn check_token(c: &Ctx, l: &L, s: &Rc<MSys>, t: String, right: bool, hist: &mut String, dead: bool) {
    l.clear();
    let s2 = s.clone();
    let t2 = t.clone();
    let r = answer(async move { s2.validate_verification_tokens(cm::VerifyCaptchaResult { token: t2, key: "a".into() }).await }).await;
    *hist += &format!("validation (right: {right}) {:?}; ", l.outs.borrow());
    let Some(r) = r else {
        c.fail(format!("{hist}: the validation is never answered"));
        return;
    };
    let o = l.last("validate");
    let ok = match &r {
        Ok(true) => right && good(o) && !dead,
        Ok(false) => (!right && good(o)) || o == Some(Out::Nothing),
        Err(_) => l.trouble() || dead,
    };
    c.check(ok, || format!("{hist}: {}", short(&r)));
}
/// a round of all requests on healthy backends
async fn healthy(c: &Ctx, l: &L, s: &Rc<MSys>, hist: &mut String) {
    l.faults.set(false);
    *hist += "then all is well; ";
    let Some(p) = ask_challenge(c, l, s, hist, false).await else { return };
    let d = p.difficulty_factor;
    let Some(t) = submit(c, l, s, good_work(&p.string, d, "a"), d, hist, false).await else { return };
    check_token(c, l, s, t.clone(), true, hist, false).await;
    check_token(c, l, s, t, false, hist, false).await;
}
fn stopped(l: &L) -> bool {
    l.outs.borrow().iter().any(|o| o.1 == Out::Stops)
}
fn registry_stopped(l: &L) -> bool {
    l.outs.borrow().iter().any(|o| *o == ("visit", Out::Stops))
}
fn cache_stopped(l: &L) -> bool {
    l.outs.borrow().iter().any(|o| o.0 != "visit" && o.1 == Out::Stops)
}

/// C17: what the registry does not know leaves nothing in the cache.
pub fn unknown_site() -> Scenario {
    Scenario::new("unknown-site", 0, move |c: Ctx| {
        exec::block_on(async move {
            let l: L = Rc::default();
            let s = mk(&l);
            let mut hist = String::new();
            let rounds = 1 + pick(2);
            for _ in 0..rounds {
                l.faults.set(true);
                l.clear();
                let before = (l.challenges.borrow().len(), l.tokens.borrow().len());
                let s2 = s.clone();
                let r = answer(async move { s2.get_pow("a".into()).await }).await;
                hist += &format!("challenge request {:?}; ", l.outs.borrow());
                if l.last("visit") != Some(Out::Nothing) {
                    continue;
                }
                c.check(matches!(r, Some(Ok(None))), || format!("{hist}: the site is unknown: {r:?}"));
                exec::pass_ms(3000, 500).await;
                let after = (l.challenges.borrow().len(), l.tokens.borrow().len());
                let stored = l.outs.borrow().iter().any(|o| o.0.starts_with("store"));
                c.check(before == after && !stored, || format!("{hist}: something is stored for an unknown site: {:?}", l.outs.borrow()));
            }
            c.obs(hist);
        })
    })
    .about("challenge requests on a scripted registry that does not know the site, and on one that does: nothing is stored in the cache for an unknown site")
}
/// C02: whatever the cache answers, a challenge that was evaluated is used up.
pub fn resubmitted() -> Scenario {
    Scenario::new("resubmitted", 0, move |c: Ctx| {
        exec::block_on(async move {
            let l: L = Rc::default();
            let s = mk(&l);
            let mut hist = String::new();
            let Some(p) = ask_challenge(&c, &l, &s, &mut hist, false).await else { return };
            let d = p.difficulty_factor;
            let works: Vec<Work> = (0..3)
                .map(|_| match pick(4) {
                    0 => good_work(&p.string, d, "a"),
                    1 => {
                        let (nonce, sc) = find_nonce(SALT, &p.string, 1, Some(d));
                        Work { string: p.string.clone(), result: sc.to_string(), nonce, key: "a".into() }
                    }
                    2 => Work { result: "x".into(), ..good_work(&p.string, d, "a") },
                    _ => good_work(&p.string, d, "b"),
                })
                .collect();
            hist = format!("difficulty {d}; ");
            let mut used = false;
            let mut tokens = 0;
            for (i, w) in works.into_iter().enumerate() {
                l.clear();
                l.faults.set(i == 0);
                let right = w.key == "a" && work_is_correct(&w, d);
                let s2 = s.clone();
                let key = w.key.clone();
                let r = answer(async move { s2.verify_pow(w, "ip".into()).await }).await;
                hist += &format!("submission for {key} (correct: {right}) {:?}; ", l.outs.borrow());
                if cache_stopped(&l) {
                    return c.obs(hist);
                }
                let Some(r) = r else {
                    return c.fail(format!("{hist}: not answered"));
                };
                tokens += r.is_ok() as usize;
                c.check(tokens <= 1, || format!("{hist}: a second token"));
                c.check(!r.is_ok() || right, || format!("{hist}: a token for wrong work"));
                if used {
                    c.check(matches!(r, Err(CaptchaError::StringNotFound)), || format!("{hist}: the challenge was used: {}", short(&r)));
                } else if i > 0 {
                    // the cache did not give the challenge away before
                    c.check(r.is_ok() == right && !matches!(r, Err(CaptchaError::StringNotFound)), || format!("{hist}: the challenge was not used: {}", short(&r)));
                }
                used |= good(l.outs.borrow().iter().find(|o| o.0 == "take challenge").map(|o| o.1));
                if i == 0 {
                    // whatever comes late
                    exec::pass_ms(3000, 500).await;
                }
            }
            c.obs(hist);
        })
    })
    .about(format!("three submissions in a row (correct, weak, no number, or for another site) for one challenge, with every request of the first one to the cache answered in each of {} ways", OUTS.len()))
}
/// Faults at every request of a challenge request, a submission and a validation.
fn flow(rounds: usize) -> Scenario {
    Scenario::new(format!("faults-{rounds}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let l: L = Rc::new(Log::default());
            let s = mk(&l);
            let mut hist = String::new();
            let (mut dead_r, mut dead_c) = (false, false);
            // a challenge and a token from before, in case the flow does not get that far
            let Some(p0) = ask_challenge(&c, &l, &s, &mut hist, false).await else { return };
            let t0 = {
                let Some(p) = ask_challenge(&c, &l, &s, &mut hist, false).await else { return };
                let d = p.difficulty_factor;
                let Some(t) = submit(&c, &l, &s, good_work(&p.string, d, "a"), d, &mut hist, false).await else { return };
                t
            };
            hist.clear();
            let (mut p, mut t) = (Some(p0), Some(t0));
            for _ in 0..rounds {
                l.faults.set(true);
                match pick(3) {
                    0 => {
                        let n = ask_challenge(&c, &l, &s, &mut hist, dead_r || dead_c).await;
                        dead_r |= registry_stopped(&l);
                        p = n.or(p);
                    }
                    1 => {
                        let Some(q) = p.take() else { return };
                        let bad = pick(2) == 1;
                        let d = q.difficulty_factor;
                        let w = if bad {
                            let (nonce, sc) = find_nonce(SALT, &q.string, 1, Some(d));
                            Work { string: q.string.clone(), result: sc.to_string(), nonce, key: "a".into() }
                        } else {
                            good_work(&q.string, d, "a")
                        };
                        let n = submit(&c, &l, &s, w, d, &mut hist, dead_c).await;
                        
                        t = n.or(t);
                    }
                    _ => {
                        let Some(q) = t.take() else { return };
                        let right = l.tokens.borrow().contains_key(&q);
                        check_token(&c, &l, &s, q, right, &mut hist, dead_c).await;
                        
                    }
                }
                dead_c |= cache_stopped(&l);
                if c.failed() {
                    return;
                }
            }
            if !dead_r && !dead_c {
                healthy(&c, &l, &s, &mut hist).await;
            }
            c.obs(hist);
        })
    })
    .shard(3)
    .about(format!("all sequences of {rounds} challenge requests, submissions (correct or not) and validations, with every request to the backends answered in each of {} ways ({OUTS:?}); then a round on healthy backends", OUTS.len()))
}
/// The backends are dead before the request comes.
fn dead_before() -> Scenario {
    Scenario::new("dead-backends", 0, move |c: Ctx| {
        exec::block_on(async move {
            let l: L = Rc::new(Log::default());
            let which = pick(4);
            let s = mk(&l);
            let mut hist = String::new();
            let Some(p) = ask_challenge(&c, &l, &s, &mut hist, false).await else { return };
            let (registry, cache) = (which & 1 != 0, which & 2 != 0);
            l.kill.set((registry, cache));
            exec::pass_ms(200, 100).await;
            hist = format!("registry ended: {registry}, cache ended: {cache}; ");
            let d = p.difficulty_factor;
            for _ in 0..2 {
                let got = ask_challenge(&c, &l, &s, &mut hist, registry || cache).await;
                c.check(got.is_some() != (registry || cache), || format!("{hist}: {got:?}"));
            }
            let t = submit(&c, &l, &s, good_work(&p.string, d, "a"), d, &mut hist, cache).await;
            c.check(t.is_some() != cache, || format!("{hist}: {t:?}"));
            check_token(&c, &l, &s, t.unwrap_or_else(|| "x".into()), !cache, &mut hist, cache).await;
            c.obs(hist);
        })
    })
    .about("requests after the registry, the cache or both have ended")
}
/// Two flows at the same time, each with its own faults.
fn two_flows(bound: u32) -> Scenario {
    Scenario::new(format!("two-flows-b{bound}"), bound, move |c: Ctx| {
        exec::block_on(async move {
            let l: L = Rc::new(Log::default());
            let s = mk(&l);
            let mut hist = String::new();
            let mut ps = vec![];
            for _ in 0..2 {
                let Some(p) = ask_challenge(&c, &l, &s, &mut hist, false).await else { return };
                ps.push(p);
            }
            hist.clear();
            let before = l.challenges.borrow().clone();
            let visits = l.visits.get();
            l.clear();
            l.faults.set(true);
            exec::explore_tasks(true);
            let what = pick(3);
            let a = Join::new();
            let b = Join::new();
            for (i, p) in ps.iter().enumerate() {
                let s = s.clone();
                if (what >> i) & 1 == 0 {
                    a.go(async move { s.get_pow("a".into()).await });
                } else {
                    let w = good_work(&p.string, p.difficulty_factor, "a");
                    b.go(async move { s.verify_pow(w, "ip".into()).await });
                }
            }
            exec::idle().await;
            exec::explore_tasks(false);
            exec::pass_ms(4000, 1000).await;
            l.faults.set(false);
            let outs = l.outs.borrow().clone();
            let (ra, rb) = (a.take(), b.take());
            let text = format!("flows {what}, {outs:?}: {ra:?} {:?}", rb);
            c.obs(format!("{what} {outs:?}"));
            c.check(ra.iter().all(|r| r.is_some()) && rb.iter().all(|r| r.is_some()), || format!("unanswered: {text}"));
            let ok = |k: &str| outs.iter().filter(|o| o.0 == k && good(Some(o.1))).count();
            for r in ra.iter().flatten() {
                if let Ok(Some(p)) = r {
                    let there = l.challenges.borrow().get(&p.string).map(|x| x.0);
                    c.check(!before.contains_key(&p.string) && there == Some(p.difficulty_factor), || format!("a challenge that is not stored: {text}"));
                }
            }
            let n = ra.iter().filter(|r| matches!(r, Some(Ok(Some(_))))).count();
            c.check(n == ok("store challenge") && n as u32 <= l.visits.get() - visits, || format!("{n} challenges: {text}"));
            let mut n = 0;
            for r in rb.iter().flatten() {
                if let Ok((t, _)) = r {
                    n += 1;
                    c.check(l.tokens.borrow().contains_key(t), || format!("a token that is not stored: {text}"));
                }
            }
            c.check(n == ok("store token"), || format!("{n} tokens: {text}"));
            if !outs.iter().any(|o| o.1 == Out::Stops) {
                healthy(&c, &l, &s, &mut hist).await;
            }
        })
    })
    .about(format!("two concurrent flows (challenge requests or submissions) with every outcome of every backend request and every interleaving up to {bound} deviations"))
}
/// Requests that are given up at any await.
fn given_up() -> Scenario {
    Scenario::new("given-up", 0, move |c: Ctx| {
        exec::block_on(async move {
            let l: L = Rc::new(Log::default());
            let s = mk(&l);
            let mut hist = String::new();
            let Some(p) = ask_challenge(&c, &l, &s, &mut hist, false).await else { return };
            let what = pick(3);
            let polls = 1 + pick(5);
            l.faults.set(true);
            let s2 = s.clone();
            let f: std::pin::Pin<Box<dyn std::future::Future<Output = ()>>> = match what {
                0 => Box::pin(async move { drop(s2.get_pow("a".into()).await) }),
                1 => {
                    let w = good_work(&p.string, p.difficulty_factor, "a");
                    Box::pin(async move { drop(s2.verify_pow(w, "ip".into()).await) })
                }
                _ => Box::pin(async move {
                    drop(s2.validate_verification_tokens(cm::VerifyCaptchaResult { token: "x".into(), key: "a".into() }).await)
                }),
            };
            let j = Join::new();
            let mut f = Some(f);
            let mut n = 0;
            j.go(std::future::poll_fn(move |cx| {
                n += 1;
                if f.as_mut().unwrap().as_mut().poll(cx).is_ready() || n == polls {
                    f = None;
                    return std::task::Poll::Ready(());
                }
                std::task::Poll::Pending
            }));
            exec::idle().await;
            exec::pass_ms(4000, 1000).await;
            c.check(j.all_done(), || "not answered".into());
            hist = format!("{what} given up after {polls} polls {:?}; ", l.outs.borrow());
            if !stopped(&l) {
                healthy(&c, &l, &s, &mut hist).await;
            }
            c.obs(hist);
        })
    })
    .about("a request of each kind given up after 1-5 polls, with every outcome of every backend request, then a round on healthy backends")
}
/// What the cache says about a challenge makes no sense.
fn odd_data(bound: u32) -> Scenario {
    Scenario::new(format!("odd-data-b{bound}"), bound, move |c: Ctx| {
        exec::block_on(async move {
            let l: L = Rc::new(Log::default());
            let s = mk(&l);
            let mut hist = String::new();
            let d = [0, 1, 5, u32::MAX][pick(4)];
            let duration = [60, 0, u64::MAX][pick(3)];
            let key = ["a", "", "b"][pick(3)];
            let bad = pick(2) == 1;
            let n = 1 + pick(3);
            for i in 0..n {
                let Some(p) = ask_challenge(&c, &l, &s, &mut hist, false).await else { return };
                let mut w = good_work(&p.string, p.difficulty_factor, "a");
                if bad {
                    w.result = "17".into();
                }
                l.odd.set(Some((d, duration, key)));
                hist = format!("{i} times before, a challenge of difficulty {d}, duration {duration} and site {key:?}, work good: {}; ", !bad);
                l.clear();
                let (s2, w2) = (s.clone(), w.clone());
                let r = answer(async move { s2.verify_pow(w2, "ip".into()).await }).await;
                l.odd.set(None);
                match &r {
                    None => c.fail(format!("{hist}: never answered")),
                    Some(Ok((t, got))) => {
                        let there = l.tokens.borrow().get(t).cloned();
                        let fine = key == "a" && *got == d && (d == 0 || work_is_correct(&w, d)) && there == Some((duration, "a".into()));
                        c.check(fine, || format!("{hist}: a token for difficulty {got}, the cache has {there:?}"));
                    }
                    Some(Err(e)) => {
                        c.check(key != "a" || d == 0 || !work_is_correct(&w, d), || format!("{hist}: {e:?}"));
                    }
                }
                if c.failed() {
                    return;
                }
            }
            for _ in 0..2 {
                healthy(&c, &l, &s, &mut hist).await;
            }
            c.check(exec::task_panics() == 0, || format!("{hist}: a panic"));
            drop(s);
            c.obs(hist);
        })
    })
    .tolerates("divide by zero")
    .about("one to three submissions whose challenge the cache reports with impossible or unusual difficulty (0, 1, 5, 2^32-1), duration (60, 0, 2^64-1) and site, with good or wrong work, then two rounds on healthy backends and the end of the system")
}
/// The same trouble over and over, then all is well.
fn long_trouble(most: usize) -> Scenario {
    let mut times: Vec<usize> = (1..=12).chain([16, 17, 20, 32, 33, 50, 64, 65, 100, 128, 129, 256, 257, 300, 500, 1000, 1024, 1025, 3000]).collect();
    times.retain(|n| *n <= most);
    let about = format!("one kind of backend request that goes the same way ({:?}) {times:?} times in a row, with correct and wrong submissions, then two rounds on healthy backends", &OUTS[..6]);
    Scenario::new(format!("long-trouble-{most}"), 0, move |c: Ctx| {
        let times = times.clone();
        exec::block_on(async move {
            let l: L = Rc::new(Log::default());
            let s = mk(&l);
            let mut hist = String::new();
            let what = ["visit", "store challenge", "take challenge", "store token", "validate"][pick(5)];
            let how = OUTS[pick(OUTS.len() - 1)];
            let bad = what != "visit" && pick(2) == 1;
            let n = times[pick(times.len())];
            for i in 0..n {
                hist = format!("{what} {how:?}, {i} times before; ");
                l.always.set(None);
                let store = matches!(what, "visit" | "store challenge");
                if store {
                    l.always.set(Some((what, how)));
                }
                let p = ask_challenge(&c, &l, &s, &mut hist, false).await;
                let Some(p) = p.filter(|_| !store) else {
                    if c.failed() {
                        return;
                    }
                    continue;
                };
                let d = p.difficulty_factor;
                let w = if bad {
                    let (nonce, sc) = find_nonce(SALT, &p.string, 1, Some(d));
                    Work { string: p.string.clone(), result: sc.to_string(), nonce, key: "a".into() }
                } else {
                    good_work(&p.string, d, "a")
                };
                if what != "validate" {
                    l.always.set(Some((what, how)));
                }
                let t = submit(&c, &l, &s, w, d, &mut hist, false).await;
                if c.failed() {
                    return;
                }
                if what == "validate" {
                    l.always.set(Some((what, how)));
                    let right = t.is_some();
                    check_token(&c, &l, &s, t.unwrap_or_else(|| "x".into()), right, &mut hist, false).await;
                }
                if c.failed() {
                    return;
                }
            }
            l.always.set(None);
            hist = format!("{what} {how:?}, {n} times; ");
            for _ in 0..2 {
                healthy(&c, &l, &s, &mut hist).await;
            }
            c.obs(format!("{what} {how:?} {bad} {n}"));
        })
    })
    .shard(2)
    .about(about)
}

pub fn c23(t: Tier) -> Vec<Scenario> {
    vec![flow(t.or(3, 4)), dead_before(), two_flows(t.or(1, 2)), given_up(), odd_data(t.or(1, 2)), long_trouble(t.or(300, 3000))]
}
