//! Helpers shared by the scenarios.
#![allow(dead_code)]
use actix::dev::*;
use actix::prelude::*;
use libmcaptcha::defense::Level;
use libmcaptcha::errors::{CaptchaError, CaptchaResult};
use libmcaptcha::master::embedded::master::Master;
use libmcaptcha::master::messages as mm;
use libmcaptcha::master::AddVisitorResult;
use libmcaptcha::{DefenseBuilder, LevelBuilder, MCaptcha, MCaptchaBuilder};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::rc::Rc;
use tokio::sync::oneshot::Receiver;

pub use crate::engine::{pick, Ctx, Scenario};
pub use crate::exec;
pub use crate::props::Tier;

/// (visitor threshold, difficulty factor) in ascending order, and the duration
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Cfg {
    pub levels: Vec<(u32, u32)>,
    pub duration: u64,
}
pub fn cfg(levels: &[(u32, u32)], duration: u64) -> Cfg {
    Cfg {
        levels: levels.to_vec(),
        duration,
    }
}
impl Cfg {
    pub fn build(&self) -> MCaptcha {
        let mut d = DefenseBuilder::default();
        for &(t, f) in &self.levels {
            d.add_level(level(t, f)).unwrap();
        }
        MCaptchaBuilder::default()
            .defense(d.build().unwrap())
            .duration(self.duration)
            .build()
            .unwrap()
    }
}
pub fn level(t: u32, f: u32) -> Level {
    LevelBuilder::default()
        .visitor_threshold(t)
        .difficulty_factor(f)
        .unwrap()
        .build()
        .unwrap()
}

/// The reference model of one site.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MSite {
    pub cfg: Cfg,
    /// times in ms at which counted visits end
    pub ends: Vec<u64>,
    pub level: usize,
    /// looked up or visited since it was added
    pub used: bool,
}
impl MSite {
    pub fn new(cfg: &Cfg) -> Self {
        MSite {
            cfg: cfg.clone(),
            ends: vec![],
            level: 0,
            used: false,
        }
    }
    pub fn expire(&mut self, now: u64) {
        self.ends.retain(|&e| e > now);
    }
    pub fn count(&self) -> u32 {
        self.ends.len() as u32
    }
    pub fn difficulty(&self) -> u32 {
        self.cfg.levels[self.level].1
    }
    /// one visit; returns (duration, difficulty)
    pub fn visit(&mut self, now: u64) -> (u64, u32) {
        self.expire(now);
        self.used = true;
        self.ends.push(now + self.cfg.duration * 1000);
        self.level = step_level(&self.cfg.levels, self.level, self.count());
        (self.cfg.duration, self.difficulty())
    }
    pub fn view(&self) -> View {
        View {
            levels: self.cfg.levels.clone(),
            duration: self.cfg.duration,
            count: self.count(),
            difficulty: self.difficulty(),
            threshold: self.cfg.levels[self.level].0,
        }
    }
}
/// The level after a visit that made the count `count`.
pub fn step_level(levels: &[(u32, u32)], level: usize, count: u32) -> usize {
    if count > levels[level].0 {
        (level + 1).min(levels.len() - 1)
    } else if level > 0 && count <= levels[level - 1].0 {
        level - 1
    } else {
        level
    }
}

/// What one can see of a site.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct View {
    pub levels: Vec<(u32, u32)>,
    pub duration: u64,
    pub count: u32,
    pub difficulty: u32,
    pub threshold: u32,
}
pub fn view(m: &MCaptcha) -> View {
    let d = m.get_defense();
    View {
        threshold: d.visitor_threshold(),
        difficulty: m.get_difficulty(),
        duration: m.get_duration(),
        count: m.get_visitors(),
        levels: Vec::<Level>::from(d)
            .iter()
            .map(|l| (l.visitor_threshold, l.difficulty_factor))
            .collect(),
    }
}

// ---- asking actors -----------------------------------------------------------------
pub async fn ask<A, M, T>(addr: &Addr<A>, m: M) -> CaptchaResult<T>
where
    A: Actor + Handler<M>,
    A::Context: ToEnvelope<A, M>,
    M: Message<Result = Receiver<CaptchaResult<T>>> + Send + 'static,
    T: Send + 'static,
{
    addr.send(m).await?.await?
}
pub fn e2s(e: &CaptchaError) -> String {
    let s = format!("{e:?}");
    s.chars().take(80).collect()
}
pub fn short<T: std::fmt::Debug>(r: &CaptchaResult<T>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => format!("Err({})", e2s(e)),
    }
}

pub async fn visit<M: libmcaptcha::master::Master>(m: &Addr<M>, id: &str) -> CaptchaResult<Option<(u64, u32)>>
where
    M::Context: ToEnvelope<M, mm::AddVisitor>,
{
    let r: CaptchaResult<Option<AddVisitorResult>> = ask(m, mm::AddVisitor(id.into())).await;
    r.map(|o| o.map(|v| (v.duration, v.difficulty_factor)))
}
pub async fn add<M: libmcaptcha::master::Master>(m: &Addr<M>, id: &str, c: &Cfg) -> CaptchaResult<()>
where
    M::Context: ToEnvelope<M, mm::AddSite>,
{
    let mcaptcha = c.build();
    ask(
        m,
        mm::AddSite {
            id: id.into(),
            mcaptcha,
        },
    )
    .await
}
pub async fn remove<M: libmcaptcha::master::Master>(m: &Addr<M>, id: &str) -> CaptchaResult<()>
where
    M::Context: ToEnvelope<M, mm::RemoveCaptcha>,
{
    ask(m, mm::RemoveCaptcha(id.into())).await
}
pub async fn rename<M: libmcaptcha::master::Master>(m: &Addr<M>, a: &str, b: &str) -> CaptchaResult<()>
where
    M::Context: ToEnvelope<M, mm::Rename>,
{
    ask(
        m,
        mm::Rename {
            name: a.into(),
            rename_to: b.into(),
        },
    )
    .await
}
pub async fn snapshot(m: &Addr<Master>) -> CaptchaResult<HashMap<String, MCaptcha>> {
    ask(m, mm::GetInternalData).await
}
pub async fn restore(m: &Addr<Master>, d: HashMap<String, MCaptcha>) -> CaptchaResult<()> {
    ask(m, mm::SetInternalData { mcaptcha: d }).await
}
pub async fn views(m: &Addr<Master>) -> CaptchaResult<BTreeMap<String, View>> {
    Ok(snapshot(m).await?.iter().map(|(k, v)| (k.clone(), view(v))).collect())
}

/// 0..n in groups that fit into a mailbox
pub fn batches(n: usize) -> impl Iterator<Item = std::ops::Range<usize>> {
    (0..n).step_by(15).map(move |i| i..n.min(i + 15))
}
/// Does all of them at the same time, in this order
pub async fn at_once<F: Future>(fs: impl IntoIterator<Item = F>) -> Vec<F::Output> {
    let mut fs: Vec<_> = fs.into_iter().map(|f| (Box::pin(f), None)).collect();
    std::future::poll_fn(|cx| {
        let mut left = false;
        for (f, r) in fs.iter_mut() {
            if r.is_none() {
                match f.as_mut().poll(cx) {
                    std::task::Poll::Ready(x) => *r = Some(x),
                    _ => left = true,
                }
            }
        }
        if left {
            std::task::Poll::Pending
        } else {
            std::task::Poll::Ready(())
        }
    })
    .await;
    fs.into_iter().filter_map(|(_, r)| r).collect()
}

// ---- concurrent tasks --------------------------------------------------------------
pub struct Join<T>(Rc<RefCell<Vec<Option<T>>>>);
impl<T: 'static> Join<T> {
    pub fn new() -> Self {
        Join(Rc::new(RefCell::new(Vec::new())))
    }
    /// runs `f` as a task of its own
    pub fn go<F: Future<Output = T> + 'static>(&self, f: F) {
        let v = self.0.clone();
        let i = {
            let mut g = v.borrow_mut();
            g.push(None);
            g.len() - 1
        };
        exec::spawn(async move {
            let r = f.await;
            v.borrow_mut()[i] = Some(r);
        });
    }
    pub fn all_done(&self) -> bool {
        self.0.borrow().iter().all(|x| x.is_some())
    }
    pub fn done(&self, i: usize) -> bool {
        self.0.borrow()[i].is_some()
    }
    pub fn take(&self) -> Vec<Option<T>> {
        std::mem::take(&mut *self.0.borrow_mut())
    }
    /// waits for quiescence and returns the results (None: unanswered)
    pub async fn settle(&self) -> Vec<Option<T>> {
        exec::idle().await;
        exec::moment(20, || self.all_done()).await;
        self.take()
    }
}

pub fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// virtual time of the scenario in ms
#[derive(Clone, Default)]
pub struct Clock(Rc<std::cell::Cell<u64>>);
impl Clock {
    pub fn now(&self) -> u64 {
        self.0.get() + exec::extra_ms()
    }
    pub async fn pass(&self, ms: u64) {
        exec::pass_ms(ms, 200).await;
        self.0.set(self.0.get() + ms);
    }
}

// ---- a whole system ------------------------------------------------------------------
pub use libmcaptcha::cache::hashcache::HashCache;
pub use libmcaptcha::cache::messages as cm;
pub use libmcaptcha::pow::{ConfigBuilder, PoWConfig, Work};
pub use libmcaptcha::system::{System, SystemBuilder};
pub const SALT: &str = "harness salt of the system under test";
pub type Sys = System<HashCache, Master>;
pub fn pow_config(salt: &str) -> mcaptcha_pow_sha256::Config {
    ConfigBuilder::default().salt(salt.into()).build().unwrap()
}
pub fn mk_system(master: Addr<Master>, cache: Addr<HashCache>, runners: usize, queue: usize) -> Sys {
    SystemBuilder::default()
        .master(master)
        .cache(cache)
        .pow(pow_config(SALT))
        .runners(runners)
        .queue_length(queue)
        .build()
}
fn target(d: u32) -> u128 {
    u128::MAX - u128::MAX / d as u128
}
/// The true score of a nonce.
pub fn score(salt: &str, string: &str, nonce: u64) -> u128 {
    let p = mcaptcha_pow_sha256::PoWBuilder::<String>::default()
        .nonce(nonce)
        .result(String::new())
        .build()
        .unwrap();
    pow_config(salt).calculate(&p, &string.to_string()).unwrap()
}
/// First nonce whose score reaches difficulty `at_least` and misses difficulty `below`.
pub fn find_nonce(salt: &str, string: &str, at_least: u32, below: Option<u32>) -> (u64, u128) {
    for n in 1u64.. {
        let s = score(salt, string, n);
        if s >= target(at_least) && below.map(|b| s < target(b)).unwrap_or(true) {
            return (n, s);
        }
    }
    unreachable!()
}
pub fn good_work(string: &str, d: u32, key: &str) -> Work {
    let (nonce, s) = find_nonce(SALT, string, d, None);
    Work {
        string: string.into(),
        result: s.to_string(),
        nonce,
        key: key.into(),
    }
}
/// The statement's condition for correct work.
pub fn work_is_correct(w: &Work, difficulty: u32) -> bool {
    let s = score(SALT, &w.string, w.nonce);
    w.result == s.to_string() && s >= target(difficulty)
}
pub async fn validate(s: &Sys, token: &str, key: &str) -> CaptchaResult<bool> {
    s.validate_verification_tokens(cm::VerifyCaptchaResult {
        token: token.into(),
        key: key.into(),
    })
    .await
}

// ---- names that something sloppy might confuse ----------------------------------------
pub fn names() -> Vec<String> {
    let long = "n".repeat(300);
    let mut v: Vec<String> = [
        "", " ", "a", "A", "a ", " a", "aa", "a/b", "a\\b", "a\0", "a\0b", "a\n", "\ta", "example.com", "Example.com",
        "example.com.", "example.com:443", "https://example.com", "example", "\u{e9}", "e\u{301}", "e", "1", "01",
        "+1", "1.0", "site{}", "{site}", "*", "a*", "null", "\u{200b}a", "\u{df}", "ss", "SS", "%61", "a,b", "a;b",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push(long.clone());
    v.push(format!("{}m", &long[1..]));
    v.push(format!("m{}", &long[1..]));
    v
}
/// "ab" and the same with one more character at the start, the end or in the middle
pub fn variations() -> Vec<String> {
    let mut v = vec![];
    for c in (0..128u8).map(char::from).chain(['\u{a0}', '\u{ad}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{10ffff}']) {
        v.extend([format!("{c}ab"), format!("ab{c}"), format!("a{c}b")]);
    }
    v.sort();
    v.dedup();
    v
}
/// what `pick_names` picks
pub fn pairs() -> String {
    format!(
        "every ordered pair of {} names that something sloppy might confuse, and of \"ab\" and each of {} names that have one more character",
        names().len(),
        variations().len()
    )
}
/// one of all ordered pairs of different names, or of a name and its variations
pub fn pick_names() -> (String, String) {
    let v = names();
    let i = pick(v.len() + 2);
    if i >= v.len() {
        let w = variations();
        let w = w[pick(w.len())].clone();
        return if i == v.len() { ("ab".into(), w) } else { (w, "ab".into()) };
    }
    let j = pick(v.len() - 1);
    (v[i].clone(), v[if j >= i { j + 1 } else { j }].clone())
}

// ---- addresses of submitters ------------------------------------------------------------
pub fn ips() -> Vec<String> {
    let mut v: Vec<String> = [
        "10.0.0.1", "10.0.0.2", "10.0.0.10", "10.0.1.1", "11.0.0.1", "1.0.0.10", "010.0.0.1", " 10.0.0.1", "10.0.0.1 ", "10.0.0.1:443", "10.0.0.1:80",
        "10.0.0.1:4430", "10.0.0.2:443", "10.0.0.1, 10.0.0.2", "10.0.0.1, 10.0.0.3", "10.0.0.3, 10.0.0.2", "10.0.0.1,10.0.0.2", "::ffff:10.0.0.1",
        "::ffff:10.0.0.2", "::ffff:a00:1", "::1", "[::1]", "[::1]:443", "[::1]:80", "::", "::2", "0:0:0:0:0:0:0:1", "2001:db8::1", "2001:DB8::1", "2001:db8::2",
        "2001:db8::1:0:0:1", "2001:db8:0:1::1", "2001:db8:1::1", "2001:db8:0:0:0:0:0:1", "2001:db8:85a3:8d3:1319:8a2e:370:7344", "2001:db8:85a3:8d3:1319:8a2e:370:7348",
        "2001:db8:85a3:8d3:1319:8a2e:371:7348", "2001:db8:85a3:8d4:1319:8a2e:370:7348", "fe80::1%eth0", "fe80::1%eth1", "fe80::1", "127.0.0.1", "127.0.0.2", "localhost", "0.0.0.0",
        "255.255.255.255", "192.168.100.100", "192.168.100.101", "192.168.100.10", "256.0.0.1", "unknown", "-", "_hidden", "for=10.0.0.1", "",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for k in 0..8 {
        // they differ in one place
        let mut w: Vec<String> = "123.123.123.123".chars().map(|c| c.to_string()).collect();
        w[k * 2] = "4".into();
        v.push(w.concat());
    }
    v.sort();
    v.dedup();
    v
}
/// one of all ordered pairs of different addresses, or of names that something might confuse
pub fn pick_addresses() -> (String, String) {
    if pick(2) == 1 {
        return pick_names();
    }
    let v = ips();
    let i = pick(v.len());
    let j = pick(v.len() - 1);
    (v[i].clone(), v[if j >= i { j + 1 } else { j }].clone())
}
