//! C18-C21: the Redis-backed cache and registry against a reference server.
//!
//! The server speaks the Redis protocol over a Unix socket in the same runtime as the
//! code under test. Time is virtual (tokio's paused clock, moved only by the scenario); what
//! the server does with a command, and in which order it serves commands of different
//! connections, are choices of the explorer.
use super::common::*;
use crate::engine::log;
use actix::prelude::{Actor, Addr};
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::errors::{CaptchaError, CaptchaResult};
use libmcaptcha::master::embedded::master::Master as EMaster;
use libmcaptcha::master::messages as mm;
use libmcaptcha::master::redis::master::Master as RMaster;
use libmcaptcha::redis::mcaptcha_redis::MCaptchaRedis;
use libmcaptcha::redis::RedisConfig;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::io::{Read, Write};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{UnixListener, UnixStream};
use tokio::sync::oneshot;

// ---- the reference server --------------------------------------------------------------
pub const COMMANDS: [&str; 9] = [
    "MCAPTCHA_CACHE.ADD_VISITOR",
    "MCAPTCHA_CACHE.ADD_CAPTCHA",
    "MCAPTCHA_CACHE.DELETE_CAPTCHA",
    "MCAPTCHA_CACHE.CAPTCHA_EXISTS",
    "MCAPTCHA_CACHE.GET",
    "MCAPTCHA_CACHE.ADD_CHALLENGE",
    "MCAPTCHA_CACHE.GET_CHALLENGE",
    "MCAPTCHA_CACHE.DELETE_CHALLENGE",
    "MCAPTCHA_CACHE.RENAME_CAPTCHA",
];
const BUILTIN: [&str; 17] = [
    "SET", "GET", "DEL", "EXISTS", "PING", "TTL", "MODULE", "COMMAND", "CLIENT", "SETEX", "PSETEX", "UNLINK", "GETDEL", "PTTL", "EXPIRE",
    "PEXPIRE", "PERSIST",
];

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Simple(String),
    Err(String),
    Int(i64),
    Bulk(String),
    Nil,
    Arr(Vec<R>),
}
fn ok() -> R {
    R::Simple("OK".into())
}
fn err(s: &str) -> R {
    R::Err(s.into())
}
fn bulk(s: &str) -> R {
    R::Bulk(s.into())
}
impl R {
    fn write(&self, o: &mut Vec<u8>) {
        match self {
            R::Simple(s) => o.extend(format!("+{s}\r\n").bytes()),
            R::Err(s) => o.extend(format!("-{s}\r\n").bytes()),
            R::Int(i) => o.extend(format!(":{i}\r\n").bytes()),
            R::Bulk(s) => o.extend(format!("${}\r\n{s}\r\n", s.len()).bytes()),
            R::Nil => o.extend(b"$-1\r\n"),
            R::Arr(v) => {
                o.extend(format!("*{}\r\n", v.len()).bytes());
                for x in v {
                    x.write(o)
                }
            }
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        self.write(&mut o);
        o
    }
}

/// What the server holds.
#[derive(Clone, Debug, Default)]
pub struct Store {
    pub now: u64,
    pub keys: BTreeMap<String, (String, Option<u64>)>,
    pub sites: BTreeMap<String, MSite>,
    /// (site, string) -> (difficulty, duration, end)
    pub challenges: BTreeMap<(String, String), (u32, u64, u64)>,
    /// names and paths of the modules
    pub modules: Vec<(String, String)>,
    pub missing: BTreeSet<String>,
}
impl Store {
    fn expire(&mut self) {
        let now = self.now;
        self.keys.retain(|_, v| v.1.map(|e| e > now).unwrap_or(true));
        self.challenges.retain(|_, v| v.2 > now);
        for s in self.sites.values_mut() {
            s.expire(now);
        }
    }
    /// the moment at which a key ends
    fn life(&self, what: &str, n: &str, ms: bool) -> Result<u64, R> {
        let bad = || err(&format!("ERR invalid expire time in '{what}' command"));
        match n.parse::<i64>() {
            Err(_) => Err(err("ERR value is not an integer or out of range")),
            Ok(n) if n <= 0 || !ms && n > i64::MAX / 1000 => Err(bad()),
            Ok(n) => {
                let n = n as u64 * if ms { 1 } else { 1000 };
                // the real one counts from 1970
                if n > i64::MAX as u64 - (1 << 41) {
                    return Err(bad());
                }
                Ok(self.now + n)
            }
        }
    }
    pub fn serve(&mut self, c: &[String]) -> R {
        self.expire();
        let a: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
        let name = a[0].to_uppercase();
        let arity = |n: usize| a.len() == n;
        let wrong = || {
            R::Err(format!(
                "ERR wrong number of arguments for '{}' command",
                a[0].to_lowercase()
            ))
        };
        if self.missing.contains(&name) {
            return R::Err(format!("ERR unknown command '{}'", a[0]));
        }
        match name.as_str() {
            "CLIENT" => ok(),
            "PING" if arity(1) => R::Simple("PONG".into()),
            "SET" if a.len() < 3 => wrong(),
            "SET" => {
                let (mut end, mut nx, mut xx, mut keep, mut get) = (None, false, false, false, false);
                let mut i = 3;
                while i < a.len() {
                    match a[i].to_uppercase().as_str() {
                        "NX" if !xx => nx = true,
                        "XX" if !nx => xx = true,
                        "GET" => get = true,
                        "KEEPTTL" if end.is_none() => keep = true,
                        u @ ("EX" | "PX") if end.is_none() && !keep && i + 1 < a.len() => {
                            end = Some((u == "PX", a[i + 1]));
                            i += 1;
                        }
                        _ => return err("ERR syntax error"),
                    }
                    i += 1;
                }
                let old = self.keys.get(a[1]).cloned();
                let end = match end {
                    None => old.as_ref().filter(|_| keep).and_then(|o| o.1),
                    Some((ms, n)) => match self.life("set", n, ms) {
                        Ok(e) => Some(e),
                        Err(e) => return e,
                    },
                };
                let done = !(nx && old.is_some() || xx && old.is_none());
                if done {
                    self.keys.insert(a[1].into(), (a[2].into(), end));
                }
                match old {
                    Some((v, _)) if get => bulk(&v),
                    _ if get || !done => R::Nil,
                    _ => ok(),
                }
            }
            n @ ("SETEX" | "PSETEX") if arity(4) => match self.life(&n.to_lowercase(), a[2], n == "PSETEX") {
                Ok(e) => {
                    self.keys.insert(a[1].into(), (a[3].into(), Some(e)));
                    ok()
                }
                Err(e) => e,
            },
            "GETDEL" if arity(2) => self.keys.remove(a[1]).map(|v| bulk(&v.0)).unwrap_or(R::Nil),
            n @ ("EXPIRE" | "PEXPIRE") if arity(3) => match a[2].parse::<i64>() {
                Err(_) => err("ERR value is not an integer or out of range"),
                Ok(l) if n == "EXPIRE" && l.unsigned_abs() > i64::MAX as u64 / 1000 => err("ERR invalid expire time in 'expire' command"),
                Ok(l) => {
                    let end = self.now as i64 + l * if n == "EXPIRE" { 1000 } else { 1 };
                    let there = self.keys.get_mut(a[1]).map(|v| v.1 = Some(end.max(0) as u64)).is_some();
                    self.expire();
                    R::Int(there as i64)
                }
            },
            "PERSIST" if arity(2) => R::Int(self.keys.get_mut(a[1]).is_some_and(|v| v.1.take().is_some()) as i64),
            "PTTL" if arity(2) => R::Int(match self.keys.get(a[1]) {
                None => -2,
                Some((_, None)) => -1,
                Some((_, Some(e))) => (e - self.now) as i64,
            }),
            "GET" if arity(2) => self.keys.get(a[1]).map(|v| bulk(&v.0)).unwrap_or(R::Nil),
            "TTL" if arity(2) => R::Int(match self.keys.get(a[1]) {
                None => -2,
                Some((_, None)) => -1,
                Some((_, Some(e))) => ((e - self.now + 500) / 1000) as i64,
            }),
            "DEL" | "UNLINK" | "EXISTS" if a.len() >= 2 => {
                let mut n = 0;
                for k in &a[1..] {
                    n += (if name == "EXISTS" {
                        self.keys.contains_key(*k)
                    } else {
                        self.keys.remove(*k).is_some()
                    }) as i64;
                }
                R::Int(n)
            }
            "GET" | "TTL" | "DEL" | "EXISTS" | "UNLINK" | "GETDEL" | "SETEX" | "PSETEX" | "PERSIST" | "PTTL" | "EXPIRE" | "PEXPIRE" => wrong(),
            "MODULE" if a.len() == 2 && a[1].eq_ignore_ascii_case("LIST") => R::Arr(
                self.modules
                    .iter()
                    .map(|(n, p)| {
                        R::Arr(vec![
                            bulk("name"),
                            bulk(n),
                            bulk("ver"),
                            R::Int(1),
                            bulk("path"),
                            bulk(p),
                            bulk("args"),
                            R::Arr(vec![]),
                        ])
                    })
                    .collect(),
            ),
            "COMMAND" if a.len() >= 2 && a[1].eq_ignore_ascii_case("INFO") => R::Arr(
                a[2..]
                    .iter()
                    .map(|c| {
                        let u = c.to_uppercase();
                        let known = BUILTIN.contains(&u.as_str())
                            || COMMANDS.contains(&u.as_str()) && !self.missing.contains(&u);
                        if known {
                            R::Arr(vec![
                                bulk(&c.to_lowercase()),
                                R::Int(-2),
                                R::Arr(vec![R::Simple("write".into())]),
                                R::Int(1),
                                R::Int(1),
                                R::Int(1),
                            ])
                        } else {
                            R::Nil
                        }
                    })
                    .collect(),
            ),
            "MCAPTCHA_CACHE.ADD_CAPTCHA" if arity(3) => {
                #[derive(serde::Deserialize)]
                struct L {
                    visitor_threshold: u32,
                    difficulty_factor: u32,
                }
                #[derive(serde::Deserialize)]
                struct C {
                    levels: Vec<L>,
                    duration: u64,
                }
                let Ok(c) = serde_json::from_str::<C>(a[2]) else {
                    return err("ERR payload");
                };
                if self.sites.contains_key(a[1]) {
                    return err("ERR duplicate captcha");
                }
                let lv: Vec<_> = c.levels.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect();
                self.sites.insert(a[1].into(), MSite::new(&cfg(&lv, c.duration)));
                ok()
            }
            "MCAPTCHA_CACHE.ADD_VISITOR" if arity(2) => {
                let now = self.now;
                match self.sites.get_mut(a[1]) {
                    None => err("ERR captcha not found"),
                    Some(s) => {
                        let (d, f) = s.visit(now);
                        bulk(&format!("{{\"duration\":{d},\"difficulty_factor\":{f}}}"))
                    }
                }
            }
            "MCAPTCHA_CACHE.DELETE_CAPTCHA" if arity(2) => match self.sites.remove(a[1]) {
                None => err("ERR captcha not found"),
                Some(_) => ok(),
            },
            "MCAPTCHA_CACHE.CAPTCHA_EXISTS" if arity(2) => R::Int(!self.sites.contains_key(a[1]) as i64),
            "MCAPTCHA_CACHE.GET" if arity(2) => match self.sites.get(a[1]) {
                None => err("ERR captcha not found"),
                Some(s) => R::Int(s.count() as i64),
            },
            "MCAPTCHA_CACHE.RENAME_CAPTCHA" if arity(3) => match self.sites.remove(a[1]) {
                None => err("ERR captcha not found"),
                Some(s) => {
                    self.sites.insert(a[2].into(), s);
                    ok()
                }
            },
            "MCAPTCHA_CACHE.ADD_CHALLENGE" if arity(3) => {
                #[derive(serde::Deserialize)]
                struct C {
                    difficulty: u32,
                    duration: u64,
                    challenge: String,
                }
                let Ok(c) = serde_json::from_str::<C>(a[2]) else {
                    return err("ERR payload");
                };
                let end = self.now + c.duration * 1000;
                self.challenges
                    .insert((a[1].into(), c.challenge), (c.difficulty, c.duration, end));
                ok()
            }
            "MCAPTCHA_CACHE.GET_CHALLENGE" if arity(3) => {
                match self.challenges.remove(&(a[1].into(), a[2].into())) {
                    None => err("ERR challenge not found"),
                    Some((f, d, _)) => bulk(&format!("{{\"duration\":{d},\"difficulty_factor\":{f}}}")),
                }
            }
            "MCAPTCHA_CACHE.DELETE_CHALLENGE" if arity(3) => {
                self.challenges.remove(&(a[1].into(), a[2].into()));
                ok()
            }
            n if COMMANDS.contains(&n) => wrong(),
            _ => R::Err(format!("ERR unknown command '{}'", a[0])),
        }
    }
}

/// What to do with a command.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Serve,
    /// the command is not applied; these bytes are the answer
    Say(Vec<u8>),
    /// the command is applied, then the connection ends without an answer
    ServeClose,
    Close,
    /// part of the answer, then the connection ends
    PartClose,
    /// applied and answered, but only after two seconds
    Late,
    /// nothing for two seconds, then the connection ends
    LateClose,
}

type Hook = Box<dyn FnMut(&[String]) -> Act>;
pub struct Inner {
    pub st: Arc<Mutex<Store>>,
    /// the nodes, if this is a cluster
    cluster: Option<Cluster>,
    t0: tokio::time::Instant,
    /// time that passed for the server alone, ms
    leapt: Cell<u64>,
    path: String,
    activity: Cell<u64>,
    pub log: RefCell<Vec<Vec<String>>>,
    hook: RefCell<Option<Hook>>,
    /// commands wait until the scenario lets them through
    gate: Cell<bool>,
    waiting: RefCell<Vec<(Vec<String>, oneshot::Sender<()>)>>,
    conns: RefCell<Vec<tokio::task::AbortHandle>>,
    /// what happens to new connections
    door: Cell<Door>,
}
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub enum Door {
    #[default]
    Open,
    /// new connections end at once
    Shut,
    /// new connections get something that is not Redis
    Garbage,
    /// new connections get no answer
    Mute,
}
#[derive(Clone)]
pub struct Srv(Rc<Inner>);

fn parse(buf: &[u8]) -> Option<(Vec<String>, usize)> {
    fn line(b: &[u8], at: usize) -> Option<(&[u8], usize)> {
        let e = b[at..].windows(2).position(|w| w == b"\r\n")?;
        Some((&b[at..at + e], at + e + 2))
    }
    let num = |l: &[u8]| std::str::from_utf8(&l[1..]).unwrap().parse::<usize>().unwrap();
    let (l, mut at) = line(buf, 0)?;
    let n = num(l);
    let mut v = vec![];
    for _ in 0..n {
        let (l, a) = line(buf, at)?;
        let len = num(l);
        if buf.len() < a + len + 2 {
            return None;
        }
        v.push(String::from_utf8_lossy(&buf[a..a + len]).into_owned());
        at = a + len + 2;
    }
    Some((v, at))
}

impl Srv {
    pub fn now(&self) -> u64 {
        (tokio::time::Instant::now() - self.0.t0).as_millis() as u64 + self.0.leapt.get()
    }
    /// time passes for the server alone, all at once
    pub fn leap(&self, ms: u64) {
        self.0.leapt.set(self.0.leapt.get() + ms);
        drop(self.store());
    }
    /// time passes all at once
    pub async fn pass_at_once(&self, ms: u64) {
        self.settle().await;
        advance_ms(ms).await;
        self.settle().await;
        drop(self.store());
    }
    pub fn config(&self) -> RedisConfig {
        if let Some(c) = &self.0.cluster {
            return RedisConfig::Cluster(c.ports.iter().map(|p| format!("redis://127.0.0.1:{p}")).collect());
        }
        RedisConfig::Single(format!("redis+unix://{}", self.0.path))
    }
    fn touch(&self) {
        self.0.activity.set(self.0.activity.get() + 1)
    }
    pub fn hook(&self, f: impl FnMut(&[String]) -> Act + 'static) {
        *self.0.hook.borrow_mut() = Some(Box::new(f));
    }
    pub fn unhook(&self) {
        *self.0.hook.borrow_mut() = None;
    }
    pub fn store(&self) -> std::sync::MutexGuard<'_, Store> {
        let mut s = self.0.st.lock().unwrap();
        s.now = self.now();
        s.expire();
        s
    }
    /// ends all connections there are
    pub fn kick(&self) {
        for h in self.0.conns.borrow_mut().drain(..) {
            h.abort();
        }
        self.0.waiting.borrow_mut().clear();
    }
    pub fn door(&self, d: Door) {
        self.0.door.set(d)
    }
    pub fn gate(&self, on: bool) {
        self.0.gate.set(on)
    }
    /// serves the i-th waiting command
    fn release(&self, i: usize) {
        let (_, tx) = self.0.waiting.borrow_mut().remove(i);
        let _ = tx.send(());
    }
    async fn conn(self, mut s: UnixStream) {
        let mut buf: Vec<u8> = vec![];
        loop {
            while let Some((c, used)) = parse(&buf) {
                buf.drain(..used);
                self.touch();
                if self.0.gate.get() {
                    let (tx, rx) = oneshot::channel();
                    self.0.waiting.borrow_mut().push((c.clone(), tx));
                    if rx.await.is_err() {
                        return;
                    }
                    self.touch();
                }
                let act = match self.0.hook.borrow_mut().as_mut() {
                    Some(h) => h(&c),
                    None => Act::Serve,
                };
                log(|| format!("server: {c:?} {}", if act == Act::Serve { String::new() } else { format!("{act:?}") }));
                self.0.log.borrow_mut().push(c.clone());
                let serve = || {
                    let mut st = self.0.st.lock().unwrap();
                    st.now = self.now();
                    st.serve(&c).bytes()
                };
                let (out, close) = match act {
                    Act::Serve => (serve(), false),
                    Act::Say(b) => (b, false),
                    Act::ServeClose => {
                        serve();
                        (vec![], true)
                    }
                    Act::Close => (vec![], true),
                    Act::PartClose => {
                        let b = serve();
                        (b[..b.len() - 1].to_vec(), true)
                    }
                    Act::Late => {
                        tokio::time::sleep(Duration::from_secs(2)).await;
                        self.touch();
                        (serve(), false)
                    }
                    Act::LateClose => {
                        tokio::time::sleep(Duration::from_secs(2)).await;
                        self.touch();
                        (vec![], true)
                    }
                };
                if s.write_all(&out).await.is_err() || close {
                    return;
                }
            }
            let mut b = [0u8; 4096];
            match s.read(&mut b).await {
                Ok(n) if n > 0 => buf.extend(&b[..n]),
                _ => return,
            }
            self.touch();
        }
    }
    /// Nothing moves any more without time passing or a waiting command being served.
    pub async fn settle(&self) {
        let (mut last, mut quiet) = (self.0.activity.get(), 0);
        while quiet < 40 {
            tokio::task::yield_now().await;
            if self.0.activity.get() != last {
                (last, quiet) = (self.0.activity.get(), 0);
            } else {
                quiet += 1;
            }
        }
    }
    pub async fn pass(&self, ms: u64) {
        self.settle().await;
        let mut left = ms;
        while left > 0 {
            let d = left.min(250);
            advance_ms(d).await;
            left -= d;
            self.settle().await;
        }
        drop(self.store());
    }
    /// The outcome of `f`; virtual time passes while it waits. None: not even after `limit_ms`.
    pub async fn outcome<T: 'static>(&self, limit_ms: u64, f: impl Future<Output = T> + 'static) -> Option<T> {
        let h = tokio::task::spawn_local(f);
        let mut left = limit_ms;
        loop {
            self.settle().await;
            if h.is_finished() {
                return h.await.ok();
            }
            if left == 0 {
                h.abort();
                return None;
            }
            let d = left.min(100);
            advance_ms(d).await;
            left -= d;
        }
    }
    /// The outcome of `f` without time passing.
    pub async fn now_or_never<T: 'static>(&self, f: impl Future<Output = T> + 'static) -> Option<T> {
        self.outcome(0, f).await
    }
}

static SOCKETS: AtomicU64 = AtomicU64::new(0);
pub fn scratch() -> std::path::PathBuf {
    let d = std::path::PathBuf::from(std::env::var_os(crate::SCRATCH).expect("scratch directory"))
        .join(std::process::id().to_string());
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

/// Lets time pass, for tokio and for who looks at the clock.
async fn advance_ms(ms: u64) {
    vsched::skip_clock(ms * 1_000_000);
    tokio::time::advance(Duration::from_millis(ms)).await;
}
/// Runs one execution against a fresh server.
pub fn with_server<F: Future<Output = ()>>(f: impl FnOnce(Srv) -> F) {
    with_redis(0, f)
}
/// The same with a cluster of some nodes, unless there are none.
fn with_redis<F: Future<Output = ()>>(nodes: usize, f: impl FnOnce(Srv) -> F) {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .unwrap();
    // a pending blocking task keeps the paused clock from moving by itself
    let (hold, held) = std::sync::mpsc::channel::<()>();
    let path = scratch().join(format!("{}", SOCKETS.fetch_add(1, Ordering::Relaxed)));
    let local = tokio::task::LocalSet::new();
    local.block_on(&rt, async {
        tokio::task::spawn_blocking(move || {
            let _ = held.recv();
        });
        let l = UnixListener::bind(&path).expect("socket");
        let st = Store {
            modules: vec![("mcaptcha_cache".into(), "/lib/libcache.so".into())],
            ..Default::default()
        };
        let st = Arc::new(Mutex::new(st));
        let srv = Srv(Rc::new(Inner {
            cluster: (nodes > 0).then(|| Cluster::new(nodes, st.clone())),
            st,
            leapt: Cell::new(0),
            t0: tokio::time::Instant::now(),
            path: path.display().to_string(),
            activity: Cell::new(0),
            log: RefCell::default(),
            hook: RefCell::default(),
            gate: Cell::new(false),
            waiting: RefCell::default(),
            conns: RefCell::default(),
            door: Cell::default(),
        }));
        let s2 = srv.clone();
        tokio::task::spawn_local(async move {
            loop {
                let Ok((mut c, _)) = l.accept().await else { return };
                s2.touch();
                let h = match s2.0.door.get() {
                    Door::Open => tokio::task::spawn_local(s2.clone().conn(c)),
                    Door::Shut => continue,
                    Door::Garbage => {
                        let _ = c.write_all(b"HTTP/1.1 400 Bad Request\r\n\r\n").await;
                        continue;
                    }
                    Door::Mute => tokio::task::spawn_local(async move {
                        tokio::time::sleep(Duration::from_secs(100_000)).await;
                        drop(c);
                    }),
                };
                s2.0.conns.borrow_mut().push(h.abort_handle());
            }
        });
        f(srv).await;
    });
    drop(local);
    drop(hold);
    drop(rt);
    vsched::real_clock();
    let _ = std::fs::remove_file(&path);
}

// ---- a cluster ------------------------------------------------------------------------
// The cluster client of redis-rs blocks the thread of its user, so the nodes have threads of
// their own. Nothing races: a node does something only while its one client waits for it.
struct Cluster {
    ports: Vec<u16>,
    plan: Arc<Mutex<Plan>>,
    ends: Arc<std::sync::atomic::AtomicBool>,
}
/// What happens to the next commands.
#[derive(Default)]
struct Plan {
    /// this many are served, then this happens to one
    fault: Option<(usize, Act)>,
    happened: bool,
    hit: Vec<String>,
    log: Vec<Vec<String>>,
}
impl Cluster {
    fn new(nodes: usize, st: Arc<Mutex<Store>>) -> Cluster {
        let ls: Vec<_> = (0..nodes).map(|_| std::net::TcpListener::bind(("127.0.0.1", 0)).expect("a port")).collect();
        let ports: Vec<u16> = ls.iter().map(|l| l.local_addr().unwrap().port()).collect();
        let plan = Arc::new(Mutex::new(Plan::default()));
        let ends = Arc::new(std::sync::atomic::AtomicBool::new(false));
        for l in ls {
            let (ports, plan, st, ends) = (ports.clone(), plan.clone(), st.clone(), ends.clone());
            std::thread::spawn(move || {
                while let Ok((c, _)) = l.accept() {
                    if ends.load(Ordering::SeqCst) {
                        return;
                    }
                    let (ports, plan, st) = (ports.clone(), plan.clone(), st.clone());
                    std::thread::spawn(move || node(c, &ports, &plan, &st));
                }
            });
        }
        Cluster { ports, plan, ends }
    }
}
impl Drop for Cluster {
    fn drop(&mut self) {
        self.ends.store(true, Ordering::SeqCst);
        for p in &self.ports {
            let _ = std::net::TcpStream::connect(("127.0.0.1", *p));
        }
    }
}
/// One connection to a node.
fn node(mut c: std::net::TcpStream, ports: &[u16], plan: &Mutex<Plan>, st: &Mutex<Store>) {
    use std::os::fd::AsRawFd;
    let _ = c.set_nodelay(true);
    // closed connections leave nothing behind
    let linger = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        let len = std::mem::size_of::<libc::linger>() as libc::socklen_t;
        libc::setsockopt(c.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &linger as *const _ as *const libc::c_void, len);
    }
    let mut buf = vec![];
    loop {
        while let Some((cmd, used)) = parse(&buf) {
            buf.drain(..used);
            let plain = matches!(cmd[0].as_str(), "CLIENT" | "READONLY" | "CLUSTER");
            let mut act = Act::Serve;
            {
                let mut p = plan.lock().unwrap();
                if !plain {
                    p.log.push(cmd.clone());
                    match p.fault.take() {
                        Some((0, a)) => {
                            act = a;
                            p.happened = true;
                            p.hit = cmd.clone();
                        }
                        Some((n, a)) => p.fault = Some((n - 1, a)),
                        None => {}
                    }
                }
            }
            let serve = || match cmd[0].as_str() {
                "READONLY" => ok(),
                "CLUSTER" => {
                    let per = 16384 / ports.len() as i64;
                    let slot = |(i, p): (usize, &u16)| {
                        let last = if i + 1 == ports.len() { 16383 } else { (i as i64 + 1) * per - 1 };
                        let me = R::Arr(vec![bulk("127.0.0.1"), R::Int(*p as i64), bulk(&format!("node{i}"))]);
                        R::Arr(vec![R::Int(i as i64 * per), R::Int(last), me])
                    };
                    R::Arr(ports.iter().enumerate().map(slot).collect())
                }
                _ => st.lock().unwrap().serve(&cmd),
            };
            let (out, close) = match act {
                Act::Serve => (serve().bytes(), false),
                Act::Say(b) => (b, false),
                _ => (vec![], true),
            };
            if c.write_all(&out).is_err() || close {
                return;
            }
        }
        let mut b = [0u8; 4096];
        match c.read(&mut b) {
            Ok(n) if n > 0 => buf.extend(&b[..n]),
            _ => return,
        }
    }
}

fn verify_msg(key: &str, token: &str) -> cm::VerifyCaptchaResult {
    cm::VerifyCaptchaResult {
        token: token.into(),
        key: key.into(),
    }
}
async fn store_token(c: Addr<RedisCache>, key: String, token: String, duration: u64) -> CaptchaResult<()> {
    ask(&c, cm::CacheResult { token, key, duration }).await
}
async fn check_token(c: Addr<RedisCache>, key: String, token: String) -> CaptchaResult<bool> {
    ask(&c, cm::VerifyCaptchaResult { token, key }).await
}
fn ok_true(r: &Option<CaptchaResult<bool>>) -> bool {
    matches!(r, Some(Ok(true)))
}

// ---- C18 -----------------------------------------------------------------------------
/// Sequences of store, validate, delete and passing time over sites and tokens.
fn token_histories(
    name: &str,
    sites: &'static [(&'static str, u64)],
    tokens: &'static [&'static str],
    depth: usize,
    caches: usize,
    nodes: usize,
) -> Scenario {
    Scenario::new(name, 0, move |ctx| {
        with_redis(nodes, |srv| async move {
            let mut cs = vec![];
            for _ in 0..caches {
                cs.push(RedisCache::new(srv.config()).await.expect("cache").start());
            }
            let con = MCaptchaRedis::new(srv.config()).await.expect("connection").get_client();
            let con = Rc::new(con);
            let pairs = sites.len() * tokens.len();
            let mut model: BTreeMap<(usize, usize), u64> = BTreeMap::new();
            let mut did = vec![];
            let mut answers = String::new();
            for step in 0..depth {
                let now = srv.now();
                model.retain(|_, e| *e > now);
                // the first operation is a store, anything else would find nothing
                let op = if step == 0 { pick(pairs) } else { pick(3 * pairs + 1) };
                let (i, t) = ((op % pairs) / tokens.len(), op % tokens.len());
                let (site, tok) = (sites[i % sites.len()].0, tokens[t]);
                let c = cs[if caches > 1 { pick(caches) } else { 0 }].clone();
                match op / pairs {
                    0 => {
                        let d = sites[i].1;
                        did.push(format!("store {site:?} {tok:?} for {d} s"));
                        let r = srv.now_or_never(store_token(c, site.into(), tok.into(), d)).await;
                        ctx.check(matches!(r, Some(Ok(()))), || format!("{did:?}: answered {r:?}"));
                        model.insert((i, t), now + d * 1000);
                    }
                    1 => {
                        did.push(format!("validate {site:?} {tok:?}"));
                        let r = srv.now_or_never(check_token(c, site.into(), tok.into())).await;
                        let want = model.remove(&(i, t)).is_some();
                        answers.push_str(if want { "+" } else { "-" });
                        ctx.check(matches!(&r, Some(Ok(v)) if *v == want), || {
                            format!("{did:?}: answered {r:?}, not {want}")
                        });
                    }
                    2 => {
                        did.push(format!("delete {site:?} {tok:?}"));
                        let (con, m) = (con.clone(), verify_msg(site, tok));
                        let r = srv.now_or_never(async move { con.delete_token(&m).await }).await;
                        ctx.check(matches!(r, Some(Ok(()))), || format!("{did:?}: answered {r:?}"));
                        model.remove(&(i, t));
                    }
                    _ => {
                        did.push("1 s passes".into());
                        srv.pass(1000).await;
                    }
                }
                ctx.state(hash(&(&model.iter().map(|(k, e)| (*k, e - srv.now().min(*e))).collect::<Vec<_>>(),)));
            }
            // whatever is left is accepted once, anything else is not
            let now = srv.now();
            model.retain(|_, e| *e > now);
            for again in [false, true] {
                for (i, (site, _)) in sites.iter().enumerate() {
                    for (t, tok) in tokens.iter().enumerate() {
                        let r = srv
                            .now_or_never(check_token(cs[0].clone(), (*site).into(), (*tok).into()))
                            .await;
                        let want = !again && model.contains_key(&(i, t));
                        answers.push_str(if want { "+" } else { "-" });
                        ctx.check(matches!(&r, Some(Ok(v)) if *v == want), || {
                            format!("{did:?}, then validate {site:?} {tok:?} (again: {again}): {r:?}, not {want}")
                        });
                    }
                }
            }
            ctx.obs(answers);
        })
    })
    .direct()
    .about(format!(
        "every sequence of {depth} of store, validate, delete, 1 s over sites {:?} and tokens {tokens:?}, {caches} cache(s){}",
        sites,
        if nodes > 0 { format!(", a cluster of {nodes} nodes") } else { String::new() }
    ))
}

/// Sites and tokens whose names are alike.
fn token_name_pairs(nodes: usize) -> Scenario {
    Scenario::new(if nodes > 0 { "name-pairs-cluster" } else { "name-pairs" }, 0, move |ctx| {
        with_redis(nodes, |srv| async move {
            let (x, y) = pick_names();
            let c = RedisCache::new(srv.config()).await.expect("cache").start();
            for (t, k) in [("t1", &x), ("t2", &y), (&x[..], &"k".to_string()), (&x[..], &y)] {
                let r = srv.now_or_never(store_token(c.clone(), k.clone(), t.into(), 5)).await;
                ctx.check(matches!(r, Some(Ok(()))), || format!("store {k:?} {t:?}: {r:?}"));
            }
            for (k, t, want) in [
                (&y[..], "t1", false),
                (&x, "t2", false),
                ("k", &y, false),
                (&x, &y, false),
                (&x, &x, false),
                (&y, &y, false),
                ("k", &x, true),
                (&y, &x, true),
                (&x, "t1", true),
                (&y, "t2", true),
                ("k", &x, false),
                (&y, &x, false),
                (&x, "t1", false),
                (&y, "t2", false),
            ] {
                let r = srv.now_or_never(check_token(c.clone(), k.into(), t.into())).await;
                ctx.check(matches!(&r, Some(Ok(v)) if *v == want), || {
                    format!("names {x:?} and {y:?}: validate token {t:?} for site {k:?}: {r:?}, not {want}")
                });
            }
            ctx.obs(format!("{x} {y}"));
        })
    })
    .direct()
    .about(format!("{}, as sites and tokens", pairs()))
}
/// Every site with every token out of all short strings of a few characters, at once.
fn all_pairs(site: usize, token: usize, nodes: usize) -> Scenario {
    fn strings(max: usize) -> Vec<String> {
        let mut v = vec![String::new()];
        let mut from = 0;
        for _ in 0..max {
            let to = v.len();
            for i in from..to {
                for c in ["a", "1", "2", ":"] {
                    v.push(format!("{}{c}", v[i]));
                }
            }
            from = to;
        }
        v
    }
    let (n, m) = (strings(site).len(), strings(token).len());
    Scenario::new(format!("all-pairs-{site}-{token}{}", if nodes > 0 { "-cluster" } else { "" }), 0, move |ctx| {
        with_redis(nodes, |srv| async move {
            let (ss, ts) = (strings(site), strings(token));
            let c = RedisCache::new(srv.config()).await.expect("cache").start();
            // all of them, or all but those of one site
            let but = match pick(9) {
                0 => None,
                k => Some((k - 1) * (ss.len() - 1) / 7),
            };
            for (i, s) in ss.iter().enumerate() {
                if Some(i) == but {
                    continue;
                }
                for t in &ts {
                    let r = srv.now_or_never(store_token(c.clone(), s.clone(), t.clone(), 60)).await;
                    if !ctx.check(matches!(r, Some(Ok(()))), || format!("store {s:?} {t:?}: {r:?}")) {
                        return;
                    }
                }
            }
            let mut sites: Vec<usize> = (0..ss.len()).collect();
            if let Some(b) = but {
                sites.swap(0, b); // first of all the site without tokens
            }
            for i in sites {
                for t in &ts {
                    let r = srv.now_or_never(check_token(c.clone(), ss[i].clone(), t.clone())).await;
                    let want = Some(i) != but;
                    if !ctx.check(matches!(&r, Some(Ok(v)) if *v == want), || {
                        format!("all pairs but those of {:?} stored: validate token {t:?} for site {:?}: {r:?}, not {want}", but.map(|b| &ss[b]), ss[i])
                    }) {
                        return;
                    }
                }
            }
            ctx.obs(format!("{but:?}"));
        })
    })
    .direct()
    .about(format!("all {n} strings of up to {site} characters out of \"a12:\" as sites with all {m} of up to {token} as tokens, stored at once (all, or all but those of one of 8 sites), then validated"))
}
/// Names that differ only in where the site ends and the token begins.
fn all_splits(max: usize, nodes: usize) -> Scenario {
    Scenario::new(format!("all-splits{}", if nodes > 0 { "-cluster" } else { "" }), 0, move |ctx| {
        with_redis(nodes, |srv| async move {
            let all = [":", "1", "a", ":1", "a:", "0:", "::1", "\u{e9}:", "{", "}:{"];
            let unit = all[pick(all.len())];
            // long enough for lengths of three (four) digits
            let total = max;
            let c = RedisCache::new(srv.config()).await.expect("cache").start();
            let name = |i: usize| (unit.repeat(i), unit.repeat(total - i));
            let mut at: Vec<usize> = (0..=total.min(300)).collect();
            at.extend((300..=total).step_by(97));
            at.extend([512, 999, 1000, 1001, 1024, total].into_iter().filter(|i| *i <= total));
            at.sort();
            at.dedup();
            let one = pick(6);
            let stored: Vec<usize> = match one {
                0 => at.iter().copied().filter(|i| i % 2 == 0).collect(),
                k => vec![[0, 1, 10, 128, total][k - 1].min(total)],
            };
            for &i in &stored {
                let (s, t) = name(i);
                let r = srv.now_or_never(store_token(c.clone(), s, t, 60)).await;
                if !ctx.check(matches!(r, Some(Ok(()))), || format!("store {unit:?} * {i}: {r:?}")) {
                    return;
                }
            }
            // those that were not issued first
            for issued in [false, true] {
                for &i in &at {
                    if stored.contains(&i) != issued {
                        continue;
                    }
                    let (s, t) = name(i);
                    let r = srv.now_or_never(check_token(c.clone(), s, t)).await;
                    if !ctx.check(matches!(&r, Some(Ok(v)) if *v == issued), || {
                        format!("tokens issued for sites of {:?} times {unit:?} with the rest of {total} as the token; of {i} times: {r:?}", stored.iter().take(5).collect::<Vec<_>>())
                    }) {
                        return;
                    }
                }
            }
            ctx.obs(format!("{unit} {one}"));
        })
    })
    .direct()
    .about(format!("10 strings repeated {max} times, cut into site and token at every place: accepted where they were issued and nowhere else"))
}
/// Tokens of every lifetime.
fn token_lives() -> Scenario {
    Scenario::new("lives", 0, move |ctx| {
        with_redis([0, 1][pick(2)], |srv| async move {
            let mut ds = super::system::durations();
            ds.extend([(1 << 31) + 1, (1 << 32) + 1]);
            let d = ds[pick(ds.len())];
            let late = pick(2) == 1;
            let c = RedisCache::new(srv.config()).await.expect("cache").start();
            srv.leap(1234);
            let r = srv.now_or_never(store_token(c.clone(), "s".into(), "t".into(), d)).await;
            ctx.check(matches!(r, Some(Ok(()))), || format!("store for {d} s: {r:?}"));
            srv.leap(d * 1000 - 200 + if late { 400 } else { 0 });
            let r = srv.now_or_never(check_token(c.clone(), "s".into(), "t".into())).await;
            ctx.check(matches!(&r, Some(Ok(v)) if *v != late), || {
                format!("a token of {d} s 0.2 s {} its end: {r:?}", if late { "after" } else { "before" })
            });
            ctx.obs(format!("{d} {late}"));
        })
    })
    .direct()
    .about("tokens of 93 durations from 1 s to 388 days and above 2^32 s, 0.2 s before and after their ends, on one server and on a cluster")
}
/// Concurrent validators of one token; the server serves waiting commands in every order.
fn token_race(shared: bool, clients: usize) -> Scenario {
    Scenario::new(
        format!("race-{}-{clients}", if shared { "one-connection" } else { "own-connections" }),
        0,
        move |ctx| {
            with_server(|srv| async move {
                // what the clients want: 0 validate, 1 validate for another site, 2 store again, 3 delete
                let mut want = vec![0, 0];
                for _ in 2..clients {
                    want.push(pick(4));
                }
                let first = RedisCache::new(srv.config()).await.expect("cache").start();
                let shared_con = MCaptchaRedis::new(srv.config()).await.expect("connection");
                let mut caches = vec![];
                let mut cons = vec![];
                for _ in 0..clients {
                    caches.push(RedisCache::new(srv.config()).await.expect("cache").start());
                    cons.push(if shared {
                        shared_con.clone()
                    } else {
                        MCaptchaRedis::new(srv.config()).await.expect("connection")
                    });
                }
                let r = srv
                    .now_or_never(store_token(first.clone(), "a".into(), "t".into(), 60))
                    .await;
                ctx.check(matches!(r, Some(Ok(()))), || format!("store answered {r:?}"));
                srv.gate(true);
                let results: Rc<RefCell<Vec<Option<CaptchaResult<bool>>>>> = Rc::default();
                for (i, w) in want.iter().copied().enumerate() {
                    results.borrow_mut().push(None);
                    let (results, cache) = (results.clone(), caches[i].clone());
                    let con = cons[i].get_client();
                    tokio::task::spawn_local(async move {
                        let res = match w {
                            0 if shared => con.get_token(&verify_msg("a", "t")).await,
                            0 => check_token(cache, "a".into(), "t".into()).await,
                            1 if shared => con.get_token(&verify_msg("b", "t")).await,
                            1 => check_token(cache, "b".into(), "t".into()).await,
                            2 => store_token(cache, "a".into(), "t".into(), 60).await.map(|_| false),
                            _ => con.delete_token(&verify_msg("a", "t")).await.map(|_| false),
                        };
                        results.borrow_mut()[i] = Some(res);
                    });
                }
                loop {
                    srv.settle().await;
                    let n = srv.0.waiting.borrow().len();
                    if n == 0 {
                        break;
                    }
                    srv.release(pick(n));
                }
                srv.gate(false);
                let res = results.borrow();
                let yes = res.iter().filter(|r| ok_true(r)).count();
                ctx.check(res.iter().all(|r| matches!(r, Some(Ok(_)))), || {
                    format!("clients {want:?}: answers {res:?}")
                });
                let stores = want.iter().filter(|w| **w == 2).count();
                let deletes = want.iter().filter(|w| **w == 3).count();
                ctx.check(yes <= 1 + stores && (yes >= 1 || deletes > 0), || {
                    format!("clients {want:?}: {yes} acceptances of a token stored {} times", 1 + stores)
                });
                for (i, w) in want.iter().enumerate() {
                    if *w == 1 {
                        ctx.check(!ok_true(&res[i]), || format!("clients {want:?}: accepted for the wrong site"));
                    }
                }
                let left = srv.now_or_never(check_token(first, "a".into(), "t".into())).await;
                let total = yes + ok_true(&left) as usize;
                ctx.check(total <= 1 + stores, || {
                    format!("clients {want:?}: {total} acceptances of a token stored {} times", 1 + stores)
                });
                ctx.obs(format!("{want:?} {yes} {}", ok_true(&left)));
            })
        },
    )
    .direct()
    .about(format!("{clients} clients at once (two validate the same token), commands served in every order"))
}

/// The reference server against the real one.
mod real {
    use super::*;
    use std::os::unix::net::UnixStream as StdStream;
    pub struct Real {
        pub path: String,
    }
    static REAL: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    /// A private redis-server on a Unix socket, one per process; it ends with this process.
    pub fn server() -> Option<Real> {
        REAL.get_or_init(|| {
            let dir = scratch().join("real");
            std::fs::create_dir_all(&dir).ok()?;
            let path = dir.join("s");
            let (d2, p2) = (dir.clone(), path.clone());
            let (tx, rx) = std::sync::mpsc::channel();
            // the parent-death signal follows the thread, so this thread stays
            std::thread::spawn(move || {
                use std::os::unix::process::CommandExt;
                let mut c = std::process::Command::new("redis-server");
                c.args(["--port", "0", "--save", "", "--appendonly", "no", "--unixsocket"])
                    .arg(&p2)
                    .arg("--dir")
                    .arg(&d2)
                    .stdin(std::process::Stdio::null())
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null());
                unsafe {
                    c.pre_exec(|| {
                        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                        Ok(())
                    });
                }
                let child = c.spawn();
                let _ = tx.send(child.is_ok());
                if let Ok(mut ch) = child {
                    PID.store(ch.id(), Ordering::SeqCst);
                    let _ = ch.wait();
                    PID.store(0, Ordering::SeqCst);
                }
            });
            if !rx.recv().ok()? {
                return None;
            }
            for _ in 0..500 {
                if StdStream::connect(&path).is_ok() {
                    return Some(path.display().to_string());
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            None
        })
        .clone()
        .map(|path| Real { path })
    }
    static PID: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    /// ends the server of this process
    pub fn stop() {
        let p = PID.load(Ordering::SeqCst);
        if p != 0 {
            unsafe { libc::kill(p as i32, libc::SIGKILL) };
            for _ in 0..200 {
                if PID.load(Ordering::SeqCst) == 0 {
                    break;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
    pub struct Client(StdStream, Vec<u8>);
    impl Client {
        pub fn new(r: &Real) -> Client {
            let s = StdStream::connect(&r.path).expect("real redis");
            s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
            Client(s, vec![])
        }
        pub fn ask(&mut self, c: &[String]) -> R {
            R::Arr(c.iter().map(|x| bulk(x)).collect())
                .bytes()
                .as_slice()
                .pipe(|b| self.0.write_all(b).expect("real redis"));
            loop {
                if let Some((r, n)) = reply(&self.1, 0) {
                    self.1.drain(..n);
                    return r;
                }
                let mut b = [0u8; 4096];
                let n = self.0.read(&mut b).expect("real redis");
                assert!(n > 0, "real redis closed the connection");
                self.1.extend(&b[..n]);
            }
        }
    }
    trait Pipe {
        fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T
        where
            Self: Sized,
        {
            f(self)
        }
    }
    impl Pipe for &[u8] {}
    fn reply(b: &[u8], at: usize) -> Option<(R, usize)> {
        let e = b.get(at..)?.windows(2).position(|w| w == b"\r\n")? + at;
        let l = std::str::from_utf8(&b[at + 1..e]).unwrap().to_string();
        let mut at2 = e + 2;
        Some((
            match b[at] {
                b'+' => R::Simple(l),
                b'-' => R::Err(l),
                b':' => R::Int(l.parse().unwrap()),
                b'$' if l == "-1" => R::Nil,
                b'*' if l == "-1" => R::Nil,
                b'$' => {
                    let n: usize = l.parse().unwrap();
                    let s = b.get(at2..at2 + n + 2)?;
                    at2 += n + 2;
                    R::Bulk(String::from_utf8_lossy(&s[..n]).into())
                }
                b'*' => {
                    let mut v = vec![];
                    for _ in 0..l.parse::<usize>().unwrap() {
                        let (r, n) = reply(b, at2)?;
                        v.push(r);
                        at2 = n;
                    }
                    R::Arr(v)
                }
                c => panic!("reply type {c}"),
            },
            at2,
        ))
    }
}

/// What two servers have to agree on.
fn gist(cmd: &[&str], r: &R) -> String {
    match r {
        R::Err(e) => format!("error {}", e.split([' ', ',']).take(2).collect::<Vec<_>>().join(" ")),
        R::Arr(v) if cmd[0] == "COMMAND" => format!("{:?}", v.iter().map(|x| matches!(x, R::Arr(_))).collect::<Vec<_>>()),
        // a TTL may have lost a second meanwhile
        R::Int(n) if cmd[0] == "TTL" && *n >= 0 => format!("about {}", (n + 1) / 10),
        R::Int(n) if cmd[0] == "PTTL" && *n >= 0 => format!("about {}", (n + 1000) / 10_000),
        r => format!("{r:?}"),
    }
}
const CONFORM: [&[&str]; 22] = [
    &["SET", "k", "v", "EX", "18"],
    &["SET", "k", "w", "EX", "38"],
    &["SET", "k", "v", "EX", "0"],
    &["SET", "k", "v", "EX", "x"],
    &["SET", "k", "v", "EX", "18446744073709551615"],
    &["SET", "k:1:k2", "v", "EX", "18"],
    &["SET", "k2", "v"],
    &["SET", "k"],
    &["SET", "k", "v", "EX"],
    &["DEL", "k"],
    &["DEL", "k:1:k2"],
    &["DEL", "k", "k2"],
    &["DEL", "k", "k"],
    &["DEL"],
    &["GET", "k"],
    &["EXISTS", "k"],
    &["TTL", "k"],
    &["TTL", "k2"],
    &["PING"],
    &["MODULE", "LIST"],
    &["COMMAND", "INFO", "SET"],
    &["COMMAND", "INFO", "MCAPTCHA_CACHE.GET"],
];
const CONFORM_MORE: [&[&str]; 28] = [
    &["SET", "k", "v", "PX", "18000"],
    &["SET", "k", "w", "NX", "EX", "28"],
    &["SET", "k", "w", "EX", "28", "XX"],
    &["SET", "k", "x", "GET"],
    &["SET", "k", "y", "KEEPTTL"],
    &["SET", "k", "v", "NX", "XX"],
    &["SET", "k", "v", "EX", "5", "PX", "5"],
    &["SETEX", "k", "18", "v"],
    &["SETEX", "k", "0", "v"],
    &["SETEX", "k", "x", "v"],
    &["SETEX", "k", "18"],
    &["PSETEX", "k", "28000", "v"],
    &["PSETEX", "k", "-1", "v"],
    &["GETDEL", "k"],
    &["GETDEL"],
    &["UNLINK", "k", "k2"],
    &["UNLINK"],
    &["SET", "k2", "v"],
    &["GET", "k"],
    &["TTL", "k"],
    &["PTTL", "k"],
    &["PTTL", "k2"],
    &["EXPIRE", "k", "28"],
    &["EXPIRE", "k2", "-1"],
    &["EXPIRE", "k", "x"],
    &["PEXPIRE", "k", "38000"],
    &["PERSIST", "k"],
    &["SET", "k", "v", "EX", "9223372036854775"],
];
fn conformance(name: &'static str, list: &'static [&'static [&'static str]], depth: usize) -> Scenario {
    Scenario::new(name, 0, move |ctx| {
        let Some(r) = real::server() else {
            ctx.obs("no redis-server here: not compared");
            return;
        };
        let mut c = real::Client::new(&r);
        c.ask(&["FLUSHALL".into()]);
        let mut st = Store {
            missing: COMMANDS.iter().map(|c| c.to_string()).collect(),
            ..Default::default()
        };
        let mut did = vec![];
        for _ in 0..depth {
            let cmd = list[pick(list.len())];
            let owned: Vec<String> = cmd.iter().map(|s| s.to_string()).collect();
            did.push(cmd.join(" "));
            let (a, b) = (gist(cmd, &st.serve(&owned)), gist(cmd, &c.ask(&owned)));
            ctx.check(a == b, || format!("{did:?}: the reference server says {a}, redis-server {b}"));
            ctx.obs(b);
        }
    })
    .direct()
    .about(format!("every sequence of {depth} of {} commands on the reference server and on the real redis-server", list.len()))
}
fn conformance_expiry() -> Scenario {
    Scenario::new("reference-server-expiry", 0, move |ctx| {
        let Some(r) = real::server() else {
            ctx.obs("no redis-server here: not compared");
            return;
        };
        let script: [(&[&str], u64); 10] = [
            (&["SET", "k", "v", "EX", "1"], 0),
            (&["SET", "l", "v", "EX", "2"], 0),
            (&["SET", "m", "v", "EX", "1"], 0),
            (&["SET", "m", "v", "EX", "30"], 0),
            (&["GET", "k"], 0),
            (&["DEL", "k"], 1500),
            (&["EXISTS", "l"], 0),
            (&["DEL", "l"], 0),
            (&["DEL", "l"], 0),
            (&["DEL", "m"], 0),
        ];
        let mut c = real::Client::new(&r);
        // on a busy machine the commands may come too late to compare them; then once more
        for _ in 0..20 {
            c.ask(&["FLUSHALL".into()]);
            let mut st = Store::default();
            let begin = std::time::Instant::now();
            let mut seen = vec![];
            for (cmd, ms) in script {
                std::thread::sleep(Duration::from_millis(ms));
                st.now += ms;
                let owned: Vec<String> = cmd.iter().map(|s| s.to_string()).collect();
                seen.push((cmd, gist(cmd, &st.serve(&owned)), gist(cmd, &c.ask(&owned))));
                if begin.elapsed() > Duration::from_millis(st.now + 300) {
                    seen.clear();
                    break;
                }
            }
            if seen.is_empty() {
                continue;
            }
            for (cmd, a, b) in seen {
                ctx.check(a == b, || format!("{cmd:?}: the reference server says {a}, redis-server {b}"));
            }
            return;
        }
        ctx.obs("too slow here: not compared");
    })
    .direct()
    .about("expiry on the reference server and on the real redis-server")
}

pub fn stop_real() {
    real::stop()
}

const SITES1: &[(&str, u64)] = &[("a", 2), ("a:b", 1), ("A", 3)];
const TOKENS1: &[&str] = &["t", "b:t", "T"];
const SITES2: &[(&str, u64)] = &[("a", 2), ("a:b", 1)];
const TOKENS2: &[&str] = &["t", "b:t"];
const SITES3: &[(&str, u64)] = &[("x", 1), ("3:x", 1), ("x:1:x", 1), ("", 1), ("x:", 1), ("é", 1), ("x y\r\n", 1), ("mcaptcha:token:1:x", 1)];
const TOKENS3: &[&str] = &["x", "1:x", ":x", "x:", "", "é", "x\0", "mcaptcha:token:1:x:x"];
pub fn c18(t: Tier) -> Vec<Scenario> {
    vec![
        token_histories("histories-nine-pairs", SITES1, TOKENS1, t.or(3, 4), 1, 0),
        token_histories("histories-four-pairs", SITES2, TOKENS2, t.or(4, 5), 1, 0),
        token_histories("histories-odd-names", SITES3, TOKENS3, 2, 1, 0),
        token_name_pairs(0),
        all_pairs(t.or(2, 3), 4, 0),
        all_pairs(2, t.or(2, 3), 2),
        all_splits(t.or(300, 1100), 0),
        all_splits(t.or(110, 300), 2),
        token_histories("histories-two-caches", &[("a", 2)], &["t", "u"], t.or(4, 5), 2, 0),
        token_histories("histories-cluster", SITES2, TOKENS2, t.or(3, 4), 1, 1),
        token_histories("histories-cluster-of-two", &[("a", 2), ("b", 1)], &["t", "u"], t.or(3, 4), 2, 2),
        token_lives(),
        token_name_pairs(2),
        token_race(false, t.or(3, 4)),
        token_race(true, t.or(3, 4)),
        conformance("reference-server", &CONFORM, t.or(3, 4)),
        conformance("reference-server-more", &CONFORM_MORE, t.or(3, 4)),
        conformance_expiry(),
    ]
}

// ---- C19 -----------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Req {
    // cache
    CachePow,
    Retrieve,
    StoreToken,
    CheckToken,
    DeletePow,
    DeleteResult,
    // registry
    AddSite,
    Visit,
    Rename,
    Remove,
    // connection
    Exists,
    Visitors,
    Ping,
    DeleteChallenge,
    DeleteToken,
}
use Req::*;
const REQS: [Req; 15] = [
    CachePow,
    Retrieve,
    StoreToken,
    CheckToken,
    DeletePow,
    DeleteResult,
    AddSite,
    Visit,
    Rename,
    Remove,
    Exists,
    Visitors,
    Ping,
    DeleteChallenge,
    DeleteToken,
];
/// requests that are messages to the cache or the registry
const MESSAGES: usize = 10;
impl Req {
    /// the answer carries data, so an answer of the wrong shape is an error
    fn data(self) -> bool {
        matches!(self, Retrieve | CheckToken | Visit | Exists | Visitors | Ping)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Fault {
    Error(&'static str),
    Wrong(R),
    Garbage(&'static [u8]),
    ServeClose,
    Close,
    PartClose,
    Late,
    LateClose,
}
fn faults_for(r: Req) -> Vec<Fault> {
    let mut v: Vec<Fault> = [
        "ERR something",
        "WRONGTYPE Operation against a key holding the wrong kind of value",
        "LOADING Redis is loading the dataset in memory",
        "READONLY You can't write against a read only replica.",
        "OOM command not allowed when used memory > 'maxmemory'.",
        "NOAUTH Authentication required.",
        "MOVED 3999 127.0.0.1:6381",
        "TRYAGAIN later",
        "BUSY Redis is busy running a script",
    ]
    .into_iter()
    .map(Fault::Error)
    .collect();
    let mut wrong = vec![R::Nil, R::Arr(vec![]), R::Arr(vec![R::Nil]), bulk(""), bulk("x"), R::Simple("x".into())];
    match r {
        Retrieve | Visit => {
            for s in [
                "{}",
                "{\"duration\":60}",
                "{\"difficulty_factor\":60}",
                "{\"duration\":-1,\"difficulty_factor\":1}",
                "{\"duration\":60,\"difficulty_factor\":4294967296}",
                "{\"duration\":\"60\",\"difficulty_factor\":1}",
                "{\"duration\":60,\"difficulty_factor\":1",
                "null",
                "[]",
                "60",
            ] {
                wrong.push(bulk(s));
            }
            wrong.push(R::Int(5));
            wrong.push(ok());
        }
        CheckToken | Exists => {
            wrong.extend([R::Int(2), R::Int(-1), R::Int(i64::MAX)]);
            wrong.push(ok());
        }
        Ping => wrong.extend([R::Int(1), ok(), bulk("PING")]),
        Visitors => wrong.push(ok()),
        _ => wrong.push(R::Int(7)),
    }
    v.extend(wrong.into_iter().map(Fault::Wrong));
    v.extend([
        Fault::Garbage(b"what?\r\n"),
        Fault::Garbage(b"$5\r\nab\r\n\r\n"),
        Fault::Garbage(b":x\r\n"),
        Fault::ServeClose,
        Fault::Close,
        Fault::PartClose,
        Fault::Late,
        Fault::LateClose,
    ]);
    v
}
/// A server that does what the command says never gives this answer to it.
fn impossible(c: &[String], r: &R) -> bool {
    match c[0].to_uppercase().as_str() {
        "GET" | "GETDEL" | "GETEX" => matches!(r, R::Arr(_)),
        // a script or several commands at once may answer anything
        n => !matches!(n, "EVAL" | "EVALSHA" | "MULTI" | "EXEC" | "MGET"),
    }
}
impl Fault {
    fn act(&self) -> Act {
        match self {
            Fault::Error(e) => Act::Say(err(e).bytes()),
            Fault::Wrong(r) => Act::Say(r.bytes()),
            Fault::Garbage(g) => Act::Say(g.to_vec()),
            Fault::ServeClose => Act::ServeClose,
            Fault::Close => Act::Close,
            Fault::PartClose => Act::PartClose,
            Fault::Late => Act::Late,
            Fault::LateClose => Act::LateClose,
        }
    }
    /// The connection is of no use afterwards.
    fn breaks_connection(&self) -> bool {
        matches!(self, Fault::Garbage(_) | Fault::ServeClose | Fault::Close | Fault::PartClose | Fault::LateClose)
    }
}

/// Everything under test in C19.
#[derive(Clone)]
struct World {
    cache: Addr<RedisCache>,
    master: Addr<RMaster>,
    con: Rc<libmcaptcha::redis::mcaptcha_redis::MCaptchaRedisConnection>,
}
const DUR: u64 = 600;
fn world_cfg() -> Cfg {
    cfg(&[(1, 10), (2, 30)], DUR)
}
impl World {
    async fn new(srv: &Srv) -> World {
        World {
            cache: RedisCache::new(srv.config()).await.expect("cache").start(),
            master: RMaster::new(srv.config()).await.expect("registry").start(),
            con: Rc::new(MCaptchaRedis::new(srv.config()).await.expect("connection").get_client()),
        }
    }
    /// A request about site `n`; a short text of what was answered.
    async fn ask(self, r: Req, n: String) -> CaptchaResult<String> {
        let vm = |t: &str| verify_msg(&n, t);
        Ok(match r {
            CachePow => {
                let m = cm::CachePoW {
                    string: "c2".into(),
                    difficulty_factor: 8,
                    duration: DUR,
                    key: n.clone(),
                };
                ask(&self.cache, m).await?;
                "ok".into()
            }
            Retrieve => {
                let v = ask(&self.cache, cm::RetrivePoW(vm("c"))).await?;
                match v {
                    None => "none".into(),
                    Some(v) => format!("{} {} {}", v.key, v.difficulty_factor, v.duration),
                }
            }
            StoreToken => {
                store_token(self.cache, n.clone(), "t2".into(), DUR).await?;
                "ok".into()
            }
            CheckToken => check_token(self.cache, n.clone(), "t".into()).await?.to_string(),
            DeletePow => {
                self.cache.send(cm::DeletePoW("nothing".into())).await??;
                "ok".into()
            }
            DeleteResult => {
                self.cache.send(cm::DeleteCaptchaResult { token: "nothing".into() }).await??;
                "ok".into()
            }
            AddSite => {
                add(&self.master, &format!("{n}-new"), &world_cfg()).await?;
                "ok".into()
            }
            Visit => format!("{:?}", visit(&self.master, &n).await?),
            Rename => {
                rename(&self.master, &n, &format!("{n}-renamed")).await?;
                "ok".into()
            }
            Remove => {
                remove(&self.master, &n).await?;
                "ok".into()
            }
            Exists => self.con.check_captcha_exists(&n).await?.to_string(),
            Visitors => self.con.get_visitors(&n).await?.to_string(),
            Ping => self.con.ping().await.to_string(),
            DeleteChallenge => {
                self.con.delete_challenge(&vm("c")).await?;
                "ok".into()
            }
            DeleteToken => {
                self.con.delete_token(&vm("t")).await?;
                "ok".into()
            }
        })
    }
}
/// What there is of site `n` before a request about it.
fn prepare(srv: &Srv, n: &str) {
    let mut s = srv.store();
    let now = s.now;
    let end = now + DUR * 1000;
    s.sites.insert(n.into(), MSite::new(&world_cfg()));
    s.challenges.insert((n.into(), "c".into()), (7, DUR, end));
}
/// The token of `n` is put there by the code itself, which alone knows how tokens are kept.
async fn prepare_token(srv: &Srv, w: &World, n: &str) -> bool {
    let r = srv
        .now_or_never(store_token(w.cache.clone(), n.into(), "t".into(), DUR))
        .await;
    matches!(r, Some(Ok(())))
}
fn expected(r: Req, n: &str) -> String {
    match r {
        Retrieve => format!("{n} 7 {DUR}"),
        CheckToken | Exists | Ping => "true".into(),
        Visit => format!("Some(({DUR}, 10))"),
        Visitors => "0".into(),
        _ => "ok".into(),
    }
}
/// All requests are served, in the order of REQS and then in reverse.
async fn all_served(ctx: &Ctx, srv: &Srv, w: &World, after: &str) {
    ctx.check(w.cache.connected() && w.master.connected(), || format!("{after}: an actor has ended"));
    let ok_tok = prepare_token(srv, w, "first").await & prepare_token(srv, w, "second").await;
    ctx.check(ok_tok, || format!("{after}: later tokens are not stored"));
    for (n, rev) in [("first", false), ("second", true)] {
        prepare(srv, n);
        for i in 0..REQS.len() {
            let r = REQS[if rev { REQS.len() - 1 - i } else { i }];
            let about = |r: Req| match r {
                // earlier requests took these
                Remove if !rev => format!("{n}-renamed"),
                Rename if rev => {
                    prepare(srv, n);
                    n.to_string()
                }
                Exists | Visitors if !rev => format!("{n}-new"),
                Retrieve if rev => {
                    prepare(srv, n);
                    n.to_string()
                }
                Visit if rev => format!("{n}-renamed"),
                _ => n.to_string(),
            };
            let site = about(r);
            if r == CheckToken && rev {
                prepare_token(srv, w, n).await;
            }
            let got = srv.outcome(60_000, w.clone().ask(r, site.clone())).await;
            let want = expected(r, &site);
            ctx.check(matches!(&got, Some(Ok(s)) if *s == want), || {
                format!("{after}: a later {r:?} of {site} answered {got:?}, not {want}")
            });
        }
    }
}

/// Requests with a fault at any of their commands, then everything without faults.
fn faults(name: &str, faulty: usize, reqs: std::ops::Range<usize>, brief: bool) -> Scenario {
    let (lo, n) = (reqs.start, reqs.len());
    Scenario::new(name, 0, move |ctx| {
        with_server(|srv| async move {
            let w = World::new(&srv).await;
            let mut after = String::new();
            for k in 0..faulty {
                let site = format!("s{k}");
                prepare(&srv, &site);
                let tok = prepare_token(&srv, &w, &site).await;
                ctx.check(tok, || format!("{after}a token is not stored"));
                let r = REQS[lo + pick(n)];
                let happened: Rc<RefCell<Vec<Fault>>> = Rc::default();
                let h2 = happened.clone();
                let commands = Rc::new(Cell::new(0));
                let c2 = commands.clone();
                srv.hook(move |c| {
                    if c[0] == "CLIENT" {
                        return Act::Serve;
                    }
                    c2.set(c2.get() + 1);
                    // one fault per request
                    if !h2.borrow().is_empty() {
                        return Act::Serve;
                    }
                    let mut fs = faults_for(r);
                    fs.retain(|f| !matches!(f, Fault::Wrong(r) if !impossible(c, r)));
                    if brief {
                        // one of each kind
                        let mut seen = BTreeSet::new();
                        fs.retain(|f| seen.insert(format!("{f:?}").split('(').next().unwrap().to_string()));
                    }
                    match pick(fs.len() + 1) {
                        0 => Act::Serve,
                        i => {
                            let f = fs[i - 1].clone();
                            h2.borrow_mut().push(f.clone());
                            f.act()
                        }
                    }
                });
                let got = srv.outcome(60_000, w.clone().ask(r, site.clone())).await;
                srv.unhook();
                let happened = happened.borrow().clone();
                after += &format!("{r:?} with {happened:?}, ");
                log(|| format!("{after}: {got:?}"));
                let want = expected(r, &site);
                let good = match (&got, happened.first()) {
                    (Some(Ok(s)), None) => *s == want,
                    (Some(Ok(s)), Some(_)) if r == Ping => s == "false",
                    (Some(Err(_)), Some(_)) => true,
                    // nothing was asked for, so any answer will do
                    (Some(Ok(_)), Some(Fault::Wrong(_))) => !r.data(),
                    _ => false,
                };
                ctx.check(good, || format!("{after}answered {got:?} ({} commands)", commands.get()));
                // the server gets over it before the next request
                srv.pass(3000).await;
                if happened.iter().any(|f| f.breaks_connection()) {
                    // a connection that broke may cost one more request of its user
                    for r in [CheckToken, Visit, Ping] {
                        let _ = srv.outcome(60_000, w.clone().ask(r, "nobody".into())).await;
                    }
                }
                ctx.obs(format!("{r:?} {}", matches!(got, Some(Ok(_)))));
            }
            all_served(&ctx, &srv, &w, &format!("after {after}")).await;
        })
    })
    .direct()
    .about("every request with every fault at every command it issues, then every request without fault")
}

/// The same on a cluster, whose client tries again what failed for want of a connection.
fn cluster_faults() -> Scenario {
    Scenario::new("cluster-one-fault", 0, move |ctx| {
        let nodes = [1, 2][pick(2)];
        with_redis(nodes, |srv| async move {
            let w = World::new(&srv).await;
            prepare(&srv, "s");
            let tok = prepare_token(&srv, &w, "s").await;
            ctx.check(tok, || "a token is not stored".into());
            let r = REQS[pick(REQS.len())];
            let mut fs = faults_for(r);
            fs.retain(|f| match f {
                // these make the client wait and try again
                Fault::Error(e) => !["LOADING", "TRYAGAIN", "MOVED", "BUSY", "READONLY"].iter().any(|k| e.starts_with(k)),
                Fault::Wrong(_) | Fault::Close => true,
                _ => false,
            });
            let f = fs[pick(fs.len())].clone();
            let at = pick(2);
            let plan = srv.0.cluster.as_ref().unwrap().plan.clone();
            *plan.lock().unwrap() = Plan { fault: Some((at, f.act())), ..Default::default() };
            let got = srv.outcome(60_000, w.clone().ask(r, "s".into())).await;
            let p = std::mem::take(&mut *plan.lock().unwrap());
            let what = format!("{r:?} with {f:?} at command {at} ({})", if p.happened { "hit" } else { "missed" });
            let want = expected(r, "s");
            let good = match &got {
                Some(_) if p.happened && matches!(&f, Fault::Wrong(r) if !impossible(&p.hit, r)) => true,
                Some(Ok(s)) if !p.happened => *s == want,
                // (the client asks every node and looks at the last answer)
                Some(Ok(s)) if r == Ping => s == "false" || f == Fault::Close || nodes > 1,
                // tried again on another connection
                Some(Ok(s)) if f == Fault::Close => *s == want,
                Some(Ok(_)) => matches!(f, Fault::Wrong(_)) && !r.data(),
                Some(Err(_)) => p.happened,
                None => false,
            };
            ctx.check(good, || format!("{what} answered {got:?}; commands {:?}", p.log));
            for r in [CheckToken, Visit, Ping] {
                let _ = srv.outcome(60_000, w.clone().ask(r, "nobody".into())).await;
            }
            all_served(&ctx, &srv, &w, &format!("after {what}")).await;
            ctx.obs(format!("{what} {}", matches!(got, Some(Ok(_)))));
        })
    })
    .direct()
    .about("clusters of one or two nodes: every request with errors, unexpected replies and hang-ups at each of its commands, then every request without fault")
}

/// Requesters that went away at every stage, then everything.
fn gone() -> Scenario {
    Scenario::new("requester-gone", 0, |ctx| {
        with_server(|srv| async move {
            let w = World::new(&srv).await;
            prepare(&srv, "s");
            prepare_token(&srv, &w, "s").await;
            let r = REQS[pick(MESSAGES)];
            let stage = pick(3);
            srv.gate(true);
            let h = tokio::task::spawn_local(w.clone().ask(r, "s".into()));
            match stage {
                // before the actor has seen the request
                0 => tokio::task::yield_now().await,
                // while the command is on its way, before or after Redis has seen it
                _ => srv.settle().await,
            }
            if stage == 2 {
                let n = srv.0.waiting.borrow().len();
                if n > 0 {
                    srv.release(0);
                }
            }
            h.abort();
            let other = tokio::task::spawn_local(w.clone().ask(Ping, "s".into()));
            loop {
                srv.settle().await;
                if srv.0.waiting.borrow().is_empty() {
                    break;
                }
                srv.release(0);
            }
            srv.gate(false);
            drop(other);
            all_served(&ctx, &srv, &w, &format!("requester of {r:?} gone at stage {stage}")).await;
            ctx.obs(format!("{r:?} {stage}"));
        })
    })
    .direct()
    .about("every request with its requester gone at three stages, then every request")
}

/// Redis goes away, before or during requests, and comes back.
fn outage(depth: usize) -> Scenario {
    Scenario::new("outage", 0, move |ctx| {
        with_server(|srv| async move {
            let w = World::new(&srv).await;
            let when = pick(2);
            let door = [Door::Open, Door::Shut, Door::Mute][pick(3)];
            let mut after = format!("{door:?} {when}: ");
            prepare(&srv, "s");
            prepare_token(&srv, &w, "s").await;
            srv.gate(when == 1);
            let mut first = true;
            if when == 0 {
                srv.door(door);
                srv.kick();
                srv.settle().await;
            }
            for _ in 0..depth {
                let r = REQS[pick(REQS.len())];
                after += &format!("{r:?} ");
                let mut hit = true;
                let got = if when == 1 && first {
                    let h = tokio::task::spawn_local(w.clone().ask(r, "s".into()));
                    srv.settle().await;
                    hit = !srv.0.waiting.borrow().is_empty();
                    srv.door(door);
                    srv.gate(false);
                    srv.kick();
                    srv.outcome(60_000, async move { h.await.unwrap() }).await
                } else {
                    srv.outcome(60_000, w.clone().ask(r, "s".into())).await
                };
                // while Redis is away nothing succeeds that needs it
                let needs = !matches!(r, DeletePow | DeleteResult) && hit && door != Door::Open;
                ctx.check(
                    match &got {
                        None => false,
                        Some(Ok(s)) => !needs || r == Ping && s == "false",
                        Some(Err(_)) => true,
                    },
                    || format!("{after}: answered {got:?} while Redis was away"),
                );
                first = false;
            }
            srv.door(Door::Open);
            srv.kick();
            for _ in 0..3 {
                for r in [CheckToken, Visit, Ping] {
                    let _ = srv.outcome(60_000, w.clone().ask(r, "nobody".into())).await;
                }
                srv.pass(2000).await;
            }
            srv.store().sites.clear();
            all_served(&ctx, &srv, &w, &format!("after an outage, {after}")).await;
            ctx.obs(after);
        })
    })
    .direct()
    .about("all connections end (between or during requests), new ones are accepted, refused or mute; then Redis is back")
}

/// The registry's snapshot messages.
fn snapshots() -> Scenario {
    Scenario::new("snapshot-messages", 0, |ctx| {
        with_server(|srv| async move {
            let w = World::new(&srv).await;
            let m = w.master.clone();
            let which = ["GetInternalData", "SetInternalData"][pick(2)];
            let got = srv
                .now_or_never(async move {
                    if which == "GetInternalData" {
                        ask(&m, mm::GetInternalData).await.map(|_| ())
                    } else {
                        ask(&m, mm::SetInternalData { mcaptcha: Default::default() }).await
                    }
                })
                .await;
            let alive = w.master.connected();
            if !matches!(got, Some(Ok(_)) | Some(Err(_))) || !alive {
                ctx.fail_known(
                    &format!("redis-{which}"),
                    format!("{which} ends the Redis-backed registry (answered {got:?}, registry alive: {alive})"),
                );
            }
            ctx.obs(format!("{which} {alive}"));
        })
    })
    .direct()
    .panics_ok()
    .about("GetInternalData and SetInternalData leave the registry alive")
}

pub fn c19(t: Tier) -> Vec<Scenario> {
    let all = 0..REQS.len();
    let mut v = vec![faults("one-fault", 1, all.clone(), false), gone(), snapshots(), outage(t.or(2, 3)), cluster_faults()];
    v.push(faults("two-faults", 2, all.clone(), true));
    if t.thorough() {
        v.push(faults("three-faults", 3, 0..MESSAGES, true));
    }
    v
}

// ---- C20 -----------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
enum Side {
    Cache,
    Registry,
}
/// Sets up one side; what came of it, without the object.
async fn connect(side: Side, c: RedisConfig) -> CaptchaResult<()> {
    match side {
        Side::Cache => RedisCache::new(c).await.map(|_| ()),
        Side::Registry => RMaster::new(c).await.map(|_| ()),
    }
}
const MODULES: [(&str, &str); 8] = [
    ("mcaptcha_cache", "/usr/lib/redis/libcache.so"),
    ("search", "/usr/lib/redis/search.so"),
    ("timeseries", "/usr/lib/redis/timeseries.so"),
    // look alike
    ("mcaptcha_cache_v0", "/usr/lib/redis/v0.so"),
    ("old_mcaptcha_cache", "/usr/lib/redis/old.so"),
    ("mcaptcha", "/usr/lib/redis/mcaptcha_cache.so"),
    ("bloom", "mcaptcha_cache"),
    ("MCAPTCHA_CACHE", "/usr/lib/redis/other.so"),
];
fn module_lists(depth: usize, all: usize, nodes: usize) -> Scenario {
    Scenario::new(if nodes > 0 { "module-lists-cluster" } else { "module-lists" }, 0, move |ctx| {
        with_redis(nodes, |srv| async move {
            let side = [Side::Cache, Side::Registry][pick(2)];
            let n = pick(depth + 1);
            let mut left: Vec<_> = MODULES[..all].to_vec();
            let mut list = vec![];
            for _ in 0..n {
                let (a, b) = left.remove(pick(left.len()));
                list.push((a.to_string(), b.to_string()));
            }
            let there = list.iter().any(|m| m.0 == MODULES[0].0);
            srv.store().modules = list.clone();
            let got = srv.outcome(60_000, connect(side, srv.config())).await;
            let good = match &got {
                Some(Ok(())) => there,
                Some(Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded)) => !there,
                _ => false,
            };
            ctx.check(good, || format!("{side:?} with modules {list:?}: {got:?}"));
            ctx.obs(format!("{side:?} {n} {there}"));
        })
    })
    .direct()
    .about(format!(
        "module lists of up to {depth} of {all} modules (the module, others, look-alikes) in every order"
    ))
}
/// Long lists, with the module at any place.
fn many_modules() -> Scenario {
    Scenario::new("many-modules", 0, move |ctx| {
        with_redis(0, |srv| async move {
            let side = [Side::Cache, Side::Registry][pick(2)];
            let sizes: Vec<usize> = (1..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect();
            let n = sizes[pick(sizes.len())];
            let mut places: Vec<usize> = vec![0, 1, n / 2, n - 1, n];
            places.dedup();
            let at = places[pick(places.len())];
            let mut list: Vec<(String, String)> = (0..n).map(|i| (format!("module{i}"), format!("/usr/lib/redis/{i}.so"))).collect();
            if let Some(m) = list.get_mut(at) {
                m.0 = MODULES[0].0.into();
            }
            srv.store().modules = list;
            let got = srv.outcome(60_000, connect(side, srv.config())).await;
            let good = match &got {
                Some(Ok(())) => at < n,
                Some(Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded)) => at >= n,
                _ => false,
            };
            ctx.check(good, || format!("{side:?} with {n} modules, the module is number {at}: {got:?}"));
            ctx.obs(format!("{side:?} {n} {at}"));
        })
    })
    .direct()
    .about("module lists of 33 lengths up to 257, with the module at the first, second, middle or last place or not there")
}
fn missing_commands(max: usize, nodes: usize) -> Scenario {
    Scenario::new(if nodes > 0 { "missing-commands-cluster" } else { "missing-commands" }, 0, move |ctx| {
        with_redis(nodes, |srv| async move {
            let side = [Side::Cache, Side::Registry][pick(2)];
            let n = pick(max + 1);
            let mut missing = BTreeSet::new();
            let mut from = 0;
            for k in 0..n {
                let room = COMMANDS.len() - from - (n - 1 - k);
                let i = from + pick(room);
                missing.insert(COMMANDS[i].to_string());
                from = i + 1;
            }
            srv.store().missing = missing.clone();
            let got = srv.outcome(60_000, connect(side, srv.config())).await;
            let good = match &got {
                Some(Ok(())) => missing.is_empty(),
                Some(Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(c))) => missing.contains(c),
                _ => false,
            };
            ctx.check(good, || format!("{side:?} without {missing:?}: {got:?}"));
            ctx.obs(format!("{got:?}"));
        })
    })
    .direct()
    .about(format!("every set of up to {max} of the nine commands missing"))
}
fn probe_errors() -> Scenario {
    Scenario::new("probe-faults", 0, move |ctx| {
        with_server(|srv| async move {
            let side = [Side::Cache, Side::Registry][pick(2)];
            let happened: Rc<RefCell<Option<(Vec<String>, Fault)>>> = Rc::default();
            let h = happened.clone();
            srv.hook(move |c| {
                if c[0] == "CLIENT" || h.borrow().is_some() || pick(2) == 0 {
                    return Act::Serve;
                }
                let fs = [
                    Fault::Error("ERR something"),
                    Fault::Error("NOAUTH Authentication required."),
                    Fault::Error("NOPERM this user has no permissions to run the 'module|list' command"),
                    Fault::Error("LOADING Redis is loading the dataset in memory"),
                    Fault::Close,
                    Fault::PartClose,
                    Fault::LateClose,
                    Fault::Garbage(b"what?\r\n"),
                    // a description that is none
                    Fault::Wrong(R::Nil),
                    Fault::Wrong(R::Int(1)),
                    Fault::Wrong(R::Arr(vec![])),
                    Fault::Wrong(bulk("mcaptcha_cache")),
                ];
                let f = fs[pick(fs.len())].clone();
                *h.borrow_mut() = Some((c.to_vec(), f.clone()));
                f.act()
            });
            let got = srv.outcome(60_000, connect(side, srv.config())).await;
            srv.unhook();
            let happened = happened.borrow().clone();
            let good = match &happened {
                None => matches!(got, Some(Ok(()))),
                Some(_) => matches!(got, Some(Err(_))),
            };
            ctx.check(good, || format!("{side:?} with {happened:?}: {got:?}"));
            // and another try without faults succeeds
            let again = srv.outcome(60_000, connect(side, srv.config())).await;
            ctx.check(matches!(again, Some(Ok(()))), || format!("{side:?} after {happened:?}: {again:?}"));
            ctx.obs(format!("{side:?} {happened:?} {}", matches!(got, Some(Ok(())))));
        })
    })
    .direct()
    .about("every fault at every probe of the set-up")
}
fn unreachable() -> Scenario {
    Scenario::new("unreachable", 0, move |ctx| {
        with_server(|srv| async move {
            let side = [Side::Cache, Side::Registry][pick(2)];
            let c = match pick(9) {
                5 => RedisConfig::Cluster(vec![]),
                6 => RedisConfig::Cluster(vec!["this is no address".into()]),
                // ports nobody listens on, and a server that is no cluster
                7 => RedisConfig::Cluster(vec!["redis://127.0.0.1:1".into(), "redis://127.0.0.1:2".into()]),
                8 => {
                    let l = std::net::TcpListener::bind(("127.0.0.1", 0)).expect("a port");
                    let p = l.local_addr().unwrap().port();
                    std::thread::spawn(move || {
                        let (mut c, _) = l.accept().unwrap();
                        let mut b = [0; 1000];
                        while matches!(c.read(&mut b), Ok(n) if n > 0) {
                            let _ = c.write_all(b"-ERR This instance has cluster support disabled\r\n");
                        }
                    });
                    RedisConfig::Cluster(vec![format!("redis://127.0.0.1:{p}")])
                }
                0 => {
                    srv.door(Door::Shut);
                    srv.config()
                }
                1 => {
                    srv.door(Door::Garbage);
                    srv.config()
                }
                2 => {
                    srv.door(Door::Mute);
                    srv.config()
                }
                3 => RedisConfig::Single("redis+unix:///nonexistent/socket".into()),
                _ => RedisConfig::Single("this is no address".into()),
            };
            let got = srv.outcome(120_000, connect(side, c)).await;
            ctx.check(matches!(got, Some(Err(_))), || format!("{side:?}: no Redis there, {got:?}"));
            ctx.obs(format!("{side:?} {}", matches!(got, Some(Err(_)))));
        })
    })
    .direct()
    .about("no server, a server that hangs up, is mute or talks something else, and an address that is none")
}
/// The real server has no module.
fn real_server() -> Scenario {
    Scenario::new("redis-server-without-module", 0, move |ctx| {
        let side = [Side::Cache, Side::Registry][pick(2)];
        let Some(r) = real::server() else {
            ctx.obs("no redis-server here: not tried");
            return;
        };
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let got = tokio::task::LocalSet::new().block_on(&rt, async {
            let c = RedisConfig::Single(format!("redis+unix://{}", r.path));
            tokio::time::timeout(Duration::from_secs(30), connect(side, c)).await
        });
        ctx.check(
            matches!(got, Ok(Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded))),
            || format!("{side:?} on a plain redis-server: {got:?}"),
        );
        ctx.obs(format!("{side:?}"));
    })
    .direct()
    .about("the real redis-server, which has no module")
}
pub fn c20(t: Tier) -> Vec<Scenario> {
    vec![
        module_lists(t.or(3, 4), 8, 0),
        many_modules(),
        missing_commands(t.or(2, 4), 0),
        module_lists(t.or(2, 3), 6, 2),
        missing_commands(t.or(1, 2), 1),
        probe_errors(),
        unreachable(),
        real_server(),
    ]
}

// ---- C21 -----------------------------------------------------------------------------
/// One backend under the operations of C21.
struct Side21<S: libmcaptcha::cache::Save, M: libmcaptcha::master::Master> {
    sys: Rc<System<S, M>>,
    /// strings issued, with their site, difficulty
    strings: Rc<RefCell<Vec<(String, String, u32)>>>,
    tokens: Rc<RefCell<Vec<(String, String)>>>,
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Add(&'static str, usize),
    Remove(&'static str),
    Rename(&'static str, &'static str),
    Challenge(&'static str),
    /// the i-th string issued last, for its site, good or not
    Submit(usize, bool),
    SubmitWrongKey(usize),
    SubmitUnknown,
    Validate(usize),
    ValidateWrongKey(usize),
    Pass(u64),
}
fn wrong_key(k: &str) -> String {
    if k == "a" { "b".into() } else { "a".into() }
}
// (for the two concrete pairs: what bounds the system's methods have is its own business)
macro_rules! side21 {($S:ty, $M:ty) => {
impl Side21<$S, $M> {
    fn new(master: Addr<$M>, cache: Addr<$S>) -> Self {
        Side21 {
            sys: Rc::new(
                SystemBuilder::default()
                    .master(master)
                    .cache(cache)
                    .pow(pow_config(SALT))
                    .runners(1)
                    .queue_length(4)
                    .build(),
            ),
            strings: Rc::default(),
            tokens: Rc::default(),
        }
    }
    async fn submit(sys: &System<$S, $M>, w: Work, key: &str, tokens: &Rc<RefCell<Vec<(String, String)>>>) -> String {
        match sys.verify_pow(w, "192.0.2.1".into()).await {
            Ok((t, d)) => {
                tokens.borrow_mut().push((t, key.into()));
                format!("accepted at {d}")
            }
            Err(_) => "rejected".into(),
        }
    }
    /// What the operation answers, tokens and strings aside.
    fn run(&self, op: Op) -> impl Future<Output = String> + 'static {
        let (sys, strings, tokens) = (self.sys.clone(), self.strings.clone(), self.tokens.clone());
        async move {
            let yn = |r: CaptchaResult<()>| if r.is_ok() { "ok".to_string() } else { "error".into() };
            let last = |i: usize| {
                let s = strings.borrow();
                s[s.len() - 1 - i].clone()
            };
            match op {
                Op::Add(s, c) => yn(add(&sys.master, s, &cfg21(c)).await),
                Op::Remove(s) => yn(remove(&sys.master, s).await),
                Op::Rename(a, b) => yn(rename(&sys.master, a, b).await),
                Op::Challenge(s) => match sys.get_pow(s.into()).await {
                    Err(_) => "error".into(),
                    Ok(None) => "none".into(),
                    Ok(Some(c)) => {
                        strings.borrow_mut().push((c.string, s.into(), c.difficulty_factor));
                        format!("difficulty {} salt {}", c.difficulty_factor, c.salt)
                    }
                },
                Op::Submit(i, good) => {
                    let (string, key, d) = last(i);
                    let work = if good {
                        good_work(&string, d, &key)
                    } else {
                        let (nonce, s) = find_nonce(SALT, &string, 1, Some(d));
                        Work { string, result: s.to_string(), nonce, key: key.clone() }
                    };
                    Self::submit(&sys, work, &key, &tokens).await
                }
                Op::SubmitWrongKey(i) => {
                    let (string, key, d) = last(i);
                    let key = wrong_key(&key);
                    Self::submit(&sys, good_work(&string, d, &key), &key, &tokens).await
                }
                Op::SubmitUnknown => Self::submit(&sys, good_work("never issued", 1, "a"), "a", &tokens).await,
                Op::Validate(i) | Op::ValidateWrongKey(i) => {
                    let (t, k) = {
                        let t = tokens.borrow();
                        t[t.len() - 1 - i].clone()
                    };
                    let k = if matches!(op, Op::Validate(_)) { k } else { wrong_key(&k) };
                    match sys.validate_verification_tokens(verify_msg(&k, &t)).await {
                        Ok(b) => b.to_string(),
                        Err(_) => "error".into(),
                    }
                }
                Op::Pass(_) => String::new(),
            }
        }
    }
}
}}
side21!(RedisCache, RMaster);
side21!(HashCache, EMaster);
fn cfg21(i: usize) -> Cfg {
    match i {
        0 => cfg(&[(1, 3), (2, 5), (4, 9)], 3),
        _ => cfg(&[(0, 2), (1, 4)], 1),
    }
}
/// What the scenario knows, to tell which operations both backends define.
#[derive(Clone, Default)]
struct Known {
    sites: BTreeMap<&'static str, usize>,
    strings: Vec<bool>,
    tokens: Vec<bool>,
}
fn ops21(k: &Known, part: usize) -> Vec<Op> {
    let mut v = vec![];
    for (s, c) in [("a", 0), ("b", 1)] {
        if k.sites.contains_key(s) {
            v.push(Op::Challenge(s));
            if part == 0 {
                v.push(Op::Remove(s));
                if !k.sites.contains_key("c") {
                    v.push(Op::Rename(s, "c"));
                }
            }
        } else if part == 0 {
            v.push(Op::Add(s, c));
            v.push(Op::Challenge(s));
        }
    }
    if k.sites.contains_key("c") {
        v.push(Op::Challenge("c"));
        if part == 0 {
            v.push(Op::Remove("c"));
        }
    }
    // strings whose fate is the same on both sides
    let n = k.strings.len();
    for i in 0..n.min(2) {
        if k.strings[n - 1 - i] {
            v.push(Op::Submit(i, true));
            if part == 1 {
                v.push(Op::Submit(i, false));
                v.push(Op::SubmitWrongKey(i));
            }
        }
    }
    if part == 1 {
        v.push(Op::SubmitUnknown);
    }
    let n = k.tokens.len();
    for i in 0..n.min(2) {
        if k.tokens[n - 1 - i] {
            v.push(Op::Validate(i));
            if part == 1 {
                v.push(Op::ValidateWrongKey(i));
            }
        }
    }
    v.push(Op::Pass(1000));
    if part == 0 {
        v.push(Op::Pass(3000));
    }
    v
}

fn equivalence(part: usize, depth: usize, nodes: usize) -> Scenario {
    let name = [["sites-and-challenges", "works-and-tokens"], ["sites-and-challenges-cluster", "works-and-tokens-cluster"]];
    Scenario::new(name[nodes.min(1)][part], 0, move |ctx| {
        with_redis(nodes, |srv| async move {
            let r = Side21::<RedisCache, RMaster>::new(
                RMaster::new(srv.config()).await.expect("registry").start(),
                RedisCache::new(srv.config()).await.expect("cache").start(),
            );
            let embedded = EMaster::new(100_000).start();
            let e = Side21::<HashCache, EMaster>::new(embedded.clone(), HashCache::default().start());
            let con = Rc::new(MCaptchaRedis::new(srv.config()).await.expect("connection").get_client());
            let mut k = Known::default();
            let mut did: Vec<Op> = vec![];
            let mut step = 0;
            let mut answers = String::new();
            let pre: &[Op] = if part == 0 { &[Op::Add("a", 0)] } else { &[Op::Add("a", 0), Op::Add("b", 1), Op::Challenge("a")] };
            while step < pre.len() + depth {
                let op = if step < pre.len() {
                    pre[step].clone()
                } else {
                    let ops = ops21(&k, part);
                    ops[pick(ops.len())].clone()
                };
                step += 1;
                did.push(op.clone());
                if let Op::Pass(ms) = op {
                    srv.pass(ms).await;
                }
                let a = finish(&srv, r.run(op.clone())).await;
                let b = finish(&srv, e.run(op.clone())).await;
                ctx.check(a.is_some() && a == b, || format!("{did:?}: Redis {a:?}, embedded {b:?}"));
                let a = a.unwrap_or_default();
                answers += &a;
                match op {
                    Op::Add(s, c) => drop(k.sites.insert(s, c)),
                    Op::Remove(s) => drop(k.sites.remove(s)),
                    Op::Rename(x, y) => {
                        if let Some(c) = k.sites.remove(x) {
                            k.sites.insert(y, c);
                        }
                    }
                    Op::Challenge(s) => {
                        ctx.check(a.starts_with("difficulty") == k.sites.contains_key(s), || {
                            format!("{did:?}: a challenge for {s} answered {a}")
                        });
                        if a.starts_with("difficulty") {
                            k.strings.push(true);
                        }
                    }
                    // what was tried for the wrong site is spent on one side only
                    Op::SubmitWrongKey(i) => {
                        let n = k.strings.len();
                        k.strings[n - 1 - i] = false;
                    }
                    Op::ValidateWrongKey(i) => {
                        let n = k.tokens.len();
                        k.tokens[n - 1 - i] = false;
                    }
                    _ => {}
                }
                if a.starts_with("accepted") {
                    k.tokens.push(true);
                }
                // the server got what the library was told
                for (i, s) in ["a", "b", "c"].into_iter().enumerate() {
                    let c = con.clone();
                    let there = finish(&srv, async move { c.check_captcha_exists(s).await }).await;
                    ctx.check(matches!(there, Some(Ok(x)) if x == k.sites.contains_key(s)), || {
                        format!("{did:?}: existence of {s} answered {there:?}")
                    });
                    if let Some(c) = k.sites.get(s) {
                        let held = srv.store().sites.get(s).map(|m| m.cfg.clone());
                        ctx.check(held.as_ref() == Some(&cfg21(*c)), || {
                            format!("{did:?}: Redis holds {held:?} for {s}, not {:?}", cfg21(*c))
                        });
                        let con = con.clone();
                        let n = finish(&srv, async move { con.get_visitors(s).await }).await;
                        let em = embedded.clone();
                        let v = finish(&srv, async move { views(&em).await }).await;
                        let have = v.and_then(|v| v.ok()).and_then(|v| v.get(s).map(|v| v.count as usize));
                        ctx.check(matches!((&n, have), (Some(Ok(n)), Some(m)) if *n == m), || {
                            format!("{did:?}: visitors of {s} on Redis {n:?}, embedded {have:?}")
                        });
                    }
                    let _ = i;
                }
                ctx.state(hash(&(k.sites.keys().collect::<Vec<_>>(), &k.strings, &k.tokens, &answers)));
            }
            ctx.obs(answers);
        })
    })
    .direct()
    .about(format!("every sequence of {depth} operations both backends define, on both backends"))
}
/// The outcome of `f`, which may involve other threads; without virtual time passing.
async fn finish<T: 'static>(srv: &Srv, f: impl Future<Output = T> + 'static) -> Option<T> {
    let h = tokio::task::spawn_local(f);
    // Time counts only while this loop runs: a machine that stands still, or
    // whose clock jumps, is no hang.
    let mut spent = Duration::ZERO;
    let mut last = std::time::Instant::now();
    let mut moments = 20;
    loop {
        for _ in 0..50 {
            if h.is_finished() {
                return h.await.ok();
            }
            tokio::task::yield_now().await;
        }
        let now = std::time::Instant::now();
        spent += (now - last).min(Duration::from_millis(20));
        last = now;
        if spent > Duration::from_secs(20) {
            h.abort();
            return None;
        }
        // a request that looks for its answer now and then
        if spent > Duration::from_millis(10) && moments > 0 {
            moments -= 1;
            srv.settle().await;
            advance_ms(1).await;
        }
    }
}
/// What is registered, in whatever state, arrives as it was configured.
fn registration() -> Scenario {
    Scenario::new("registration", 0, move |ctx| {
        with_server(|srv| async move {
            const D: [u64; 4] = [1, 30, 1 << 33, u64::MAX / 2000];
            let cf = match pick(9) {
                0 => cfg(&[(5, 7)], D[pick(4)]),
                1 => cfg(&[(0, 1), (1, 1), (2, 1)], D[pick(4)]),
                2 => cfg(&[(1, 2), (3, 5), (4, 9), (10, 100)], D[pick(4)]),
                3 => cfg(&[(0, 1), (u32::MAX - 1, u32::MAX - 1), (u32::MAX, u32::MAX)], D[pick(4)]),
                4 => Cfg { levels: (0..40).map(|i| (i * 1000, 1 + i * 50)).collect(), duration: D[pick(4)] },
                5 => Cfg { levels: (0..3).map(|i| ((1 << (i * 8)) - 1, 1 << (i * 8))).collect(), duration: D[pick(4)] },
                k => Cfg { levels: (0..[100, 257, 1030][k - 6]).map(|i| (i * 3 + 1, 1 + i * 2)).collect(), duration: D[pick(4)] },
            };
            let mut m = cf.build();
            let n = pick(6);
            for _ in 0..n {
                m.add_visitor();
            }
            if pick(2) == 1 {
                m.decrement_visitor_by(n as u32);
            }
            let name = ["a", "", "\u{e9} {x}\r\n"][pick(3)];
            let master = RMaster::new(srv.config()).await.expect("registry").start();
            let again = pick(2) == 1; // by way of a stored state
            if again {
                m = serde_json::from_str(&serde_json::to_string(&m).unwrap()).unwrap();
            }
            let what = format!("{name:?} with {:?}", view(&m));
            let msg = mm::AddSite { id: name.into(), mcaptcha: m };
            let mm = master.clone();
            let r = srv.now_or_never(async move { ask(&mm, msg).await }).await;
            ctx.check(matches!(r, Some(Ok(()))), || format!("registering {what}: {r:?}"));
            let held: Vec<_> = srv.store().sites.iter().map(|(k, v)| (k.clone(), v.cfg.clone())).collect();
            ctx.check(held == [(name.to_string(), cf.clone())], || format!("registered {what}, Redis holds {held:?}"));
            ctx.obs(what);
        })
    })
    .direct()
    .about("sites of 9 configurations (up to 1030 levels) and 4 durations, registered after 0-5 visits and perhaps the end of them: Redis gets all of the configuration")
}
/// Challenges and tokens of sites of every duration, on both backends.
fn lives() -> Scenario {
    Scenario::new("whole-lives", 0, move |ctx| {
        with_redis([0, 1][pick(2)], |srv| async move {
            let ds = super::system::durations();
            let d = ds[pick(ds.len())];
            let (challenge_late, token_late) = [(true, false), (false, false), (false, true)][pick(3)];
            let cf = cfg(&[(50, 7)], d);
            let r = Side21::<RedisCache, RMaster>::new(
                RMaster::new(srv.config()).await.expect("registry").start(),
                RedisCache::new(srv.config()).await.expect("cache").start(),
            );
            let e = Side21::<HashCache, EMaster>::new(EMaster::new(60_000_000).start(), HashCache::default().start());
            let mut have: [Vec<String>; 2] = Default::default();
            let mut strings = [String::new(), String::new()];
            let mut tokens = strings.clone();
            macro_rules! both {
                ($f:ident) => {{
                    $f!(0, r.sys.clone());
                    $f!(1, e.sys.clone());
                }};
            }
            macro_rules! begin {
                ($i:expr, $sys:expr) => {{
                    let (sys, cf) = ($sys, cf.clone());
                    let got = finish(&srv, async move {
                        let _ = add(&sys.master, "s", &cf).await;
                        sys.get_pow("s".into()).await
                    })
                    .await;
                    have[$i].push(format!("{:?}", got.as_ref().map(|r| r.as_ref().ok().map(|p| p.as_ref().map(|p| p.difficulty_factor)))));
                    if let Some(Ok(Some(p))) = got {
                        strings[$i] = p.string;
                    }
                }};
            }
            macro_rules! submit {
                ($i:expr, $sys:expr) => {{
                    let (sys, w) = ($sys, good_work(&strings[$i], 7, "s"));
                    match finish(&srv, async move { sys.verify_pow(w, "ip".into()).await }).await {
                        Some(Ok((t, d))) => {
                            have[$i].push(format!("accepted at {d}"));
                            tokens[$i] = t;
                        }
                        r => have[$i].push(format!("rejected {}", r.is_some())),
                    }
                }};
            }
            macro_rules! redeem {
                ($i:expr, $sys:expr) => {{
                    let (sys, m) = ($sys, verify_msg("s", &tokens[$i]));
                    let r = finish(&srv, async move { sys.validate_verification_tokens(m).await }).await;
                    have[$i].push(format!("{r:?}"));
                }};
            }
            both!(begin);
            srv.pass_at_once(d * 1000 - 200).await;
            if challenge_late {
                srv.pass_at_once(400).await;
            }
            both!(submit);
            srv.pass_at_once(d * 1000 - 200).await;
            if token_late {
                srv.pass_at_once(400).await;
            }
            both!(redeem);
            ctx.check(have[0] == have[1], || {
                format!("{d} s, challenge late: {challenge_late}, token late: {token_late}: Redis {:?}, embedded {:?}", have[0], have[1])
            });
            let took = have[1].get(1).map(|s| s.starts_with("accepted")) == Some(true);
            ctx.check(took != challenge_late, || format!("{d} s, challenge late: {challenge_late}: {:?}", have[1]));
            ctx.obs(format!("{d} {have:?}"));
        })
    })
    .direct()
    .about("sites of 91 durations from 1 s to 388 days on both backends (one Redis, a cluster): the challenge and then the token used 0.2 s before and after their ends")
}
/// Sites whose names are alike, on both backends.
fn alike() -> Scenario {
    Scenario::new("site-names", 0, move |ctx| {
        with_server(|srv| async move {
            let (x, y) = pick_names();
            let cf = [cfg21(0), cfg21(1)];
            let r = Side21::<RedisCache, RMaster>::new(
                RMaster::new(srv.config()).await.expect("registry").start(),
                RedisCache::new(srv.config()).await.expect("cache").start(),
            );
            let e = Side21::<HashCache, EMaster>::new(EMaster::new(100_000).start(), HashCache::default().start());
            macro_rules! drive {
                ($s:expr) => {{
                    let (sys, x, y, cf) = ($s.sys.clone(), x.clone(), y.clone(), cf.clone());
                    finish(&srv, async move {
                        let mut out = vec![];
                        out.push(short(&add(&sys.master, &x, &cf[0]).await));
                        let unknown = sys.get_pow(y.clone()).await;
                        out.push(format!("unknown: {}", matches!(unknown, Ok(None))));
                        out.push(short(&add(&sys.master, &y, &cf[1]).await));
                        let mut chs = vec![];
                        for n in [&x, &y, &x, &x] {
                            if let Ok(Some(p)) = sys.get_pow(n.clone()).await {
                                out.push(format!("{}", p.difficulty_factor));
                                chs.push(p);
                            } else {
                                out.push("no challenge".into());
                                return out;
                            }
                        }
                        let mut token = None;
                        for (i, n) in [(0, &y), (1, &y), (2, &x)] {
                            let w = good_work(&chs[i].string, chs[i].difficulty_factor, n);
                            match sys.verify_pow(w, "ip".into()).await {
                                Ok((t, d)) => {
                                    out.push(format!("accepted at {d}"));
                                    token = Some(t);
                                }
                                Err(_) => out.push("rejected".into()),
                            }
                        }
                        let t = token.unwrap_or_default();
                        // (what was tried for a wrong site is defined on Redis only)
                        let msg = |k: &str| verify_msg(k, &t);
                        out.push(short(&sys.validate_verification_tokens(msg(&x)).await));
                        out.push(short(&sys.validate_verification_tokens(msg(&x)).await));
                        out.push(short(&remove(&sys.master, &x).await));
                        out.push(format!("{}", matches!(sys.get_pow(y).await, Ok(Some(_)))));
                        out.push(format!("{}", matches!(sys.get_pow(x).await, Ok(None))));
                        out
                    })
                    .await
                }};
            }
            let a = drive!(r);
            let b = drive!(e);
            ctx.check(a.is_some() && a == b, || format!("{x:?} and {y:?}: Redis {a:?}, embedded {b:?}"));
            let con = Rc::new(MCaptchaRedis::new(srv.config()).await.expect("connection").get_client());
            for (n, want) in [(&x, false), (&y, true)] {
                let (con, n2) = (con.clone(), n.clone());
                let there = finish(&srv, async move { con.check_captcha_exists(&n2).await }).await;
                ctx.check(matches!(&there, Some(Ok(t)) if *t == want), || format!("{x:?} removed, {y:?} not: does {n:?} exist? {there:?}"));
            }
            let there: Vec<String> = srv.store().sites.keys().cloned().collect();
            ctx.check(there == [y.clone()], || format!("{x:?} removed, {y:?} not: Redis holds {there:?}"));
            ctx.obs(format!("{a:?}"));
        })
    })
    .direct()
    .about(format!("{}, as sites on both backends, and whether they exist", pairs()))
}
/// Requests that the backends treat differently (existing or unknown names): what Redis says
/// it did it has done, and what it refuses changes nothing.
fn only_one(depth: usize, nodes: usize) -> Scenario {
    Scenario::new(if nodes > 0 { "existing-and-unknown-cluster" } else { "existing-and-unknown" }, 0, move |ctx| {
        with_redis(nodes, |srv| async move {
            let r = RMaster::new(srv.config()).await.expect("registry").start();
            let e = EMaster::new(100_000).start();
            macro_rules! op {
                ($m:expr, $k:expr) => {{
                    let (m, k) = ($m.clone(), $k);
                    finish(&srv, async move {
                        match k {
                            0 => add(&m, "a", &cfg21(1)).await,
                            1 => add(&m, "a", &cfg21(0)).await,
                            2 => add(&m, "b", &cfg21(0)).await,
                            3 => remove(&m, "a").await,
                            4 => remove(&m, "c").await,
                            5 => rename(&m, "a", "b").await,
                            6 => rename(&m, "c", "a").await,
                            7 => rename(&m, "b", "c").await,
                            8 => rename(&m, "a", "a").await,
                            _ => visit(&m, "b").await.map(|_| ()),
                        }
                    })
                    .await
                }};
            }
            const WHAT: [&str; 10] = ["add a (2)", "add a (1)", "add b (1)", "remove a", "remove c", "rename a to b", "rename c to a", "rename b to c", "rename a to a", "visit b"];
            macro_rules! redis_state {
                () => {{
                    let store = srv.store();
                    let v: BTreeMap<String, (Cfg, u32)> = store.sites.iter().map(|(n, s)| (n.clone(), (s.cfg.clone(), s.count()))).collect();
                    v
                }};
            }
            let mut did = vec![];
            for step in 0..depth + 3 {
                let k = if step < 3 { [1, 2, 9][step] } else { pick(WHAT.len()) };
                did.push(WHAT[k]);
                let before = redis_state!();
                let a = op!(r, k);
                let after = redis_state!();
                match &a {
                    Some(Ok(())) => {
                        let b = op!(e, k);
                        ctx.check(matches!(b, Some(Ok(()))), || format!("{did:?}: Redis {a:?}, embedded {b:?}"));
                        let em = e.clone();
                        let v = finish(&srv, async move { views(&em).await }).await.and_then(|v| v.ok()).unwrap_or_default();
                        let want: BTreeMap<String, (Cfg, u32)> = v.into_iter().map(|(n, v)| (n, (Cfg { levels: v.levels, duration: v.duration }, v.count))).collect();
                        // (where one site took the name of another, the numbers may differ)
                        let names = |m: &BTreeMap<String, (Cfg, u32)>| m.iter().map(|(n, x)| (n.clone(), x.0.clone())).collect::<Vec<_>>();
                        let same = if k == 9 { after == want || names(&after) == names(&want) } else { names(&after) == names(&want) };
                        ctx.check(same, || format!("{did:?} was done, Redis holds {after:?}, embedded {want:?}"));
                    }
                    Some(Err(_)) => {
                        ctx.check(before == after, || format!("{did:?} was refused, Redis held {before:?} and now {after:?}"));
                    }
                    None => ctx.fail(format!("{did:?}: not answered")),
                }
                ctx.obs(format!("{did:?} {after:?}"));
            }
        })
    })
    .direct()
    .about(format!("every sequence of {depth} of 10 requests for existing and unknown sites: what Redis says is done is done as on the embedded registry, what is refused changes nothing"))
}
/// More requests at once than a mailbox holds.
fn burst21(nodes: usize) -> Scenario {
    Scenario::new(if nodes > 0 { "burst-cluster" } else { "burst" }, 0, move |ctx| {
        with_redis(nodes, |srv| async move {
            const N: [usize; 11] = [5, 15, 16, 17, 18, 32, 33, 34, 64, 100, 300];
            let n = N[pick(N.len())];
            let cf = cfg(&[(4, 2), (20, 3), (100_000, 5)], 300);
            let good = pick(2) == 1;
            let r = Side21::<RedisCache, RMaster>::new(
                RMaster::new(srv.config()).await.expect("registry").start(),
                RedisCache::new(srv.config()).await.expect("cache").start(),
            );
            let sys = r.sys.clone();
            let out = finish(&srv, async move {
                let mut out: Vec<String> = vec![];
                for site in ["a", "b"] {
                    out.push(short(&add(&sys.master, site, &cf).await));
                }
                let chs = at_once((0..n).map(|_| sys.get_pow("b".into()))).await;
                let chs: Vec<_> = chs.into_iter().filter_map(|r| r.ok().flatten()).collect();
                let mut ds: Vec<u32> = chs.iter().map(|p| p.difficulty_factor).collect();
                ds.sort();
                let mut m = MSite::new(&cf);
                let mut want: Vec<u32> = (0..n).map(|_| m.visit(0).1).collect();
                want.sort();
                if ds != want {
                    out.push(format!("difficulties {ds:?}, expected {want:?}"));
                }
                let strings: BTreeSet<String> = chs.iter().map(|p| p.string.clone()).collect();
                if strings.len() != n {
                    out.push(format!("{} strings", strings.len()));
                }
                let works: Vec<_> = chs.iter().map(|p| {
                    let mut w = good_work(&p.string, p.difficulty_factor, "b");
                    if !good {
                        w.result.push('0');
                    }
                    w
                }).collect();
                let res = at_once(works.into_iter().map(|w| sys.verify_pow(w, "192.0.2.1".into()))).await;
                let tokens: Vec<String> = res.iter().filter_map(|r| r.as_ref().ok().map(|r| r.0.clone())).collect();
                if tokens.len() != if good { n } else { 0 } {
                    out.push(format!("{} tokens for {n} submissions (good: {good}): {:?}", tokens.len(), res.iter().find(|r| r.is_ok() != good)));
                }
                for round in 0..2 {
                    let v = at_once(tokens.iter().map(|t| sys.validate_verification_tokens(verify_msg("b", t)))).await;
                    if let Some(r) = v.iter().find(|r| !matches!(r, Ok(x) if *x == (round == 0))) {
                        out.push(format!("round {round} of validations: {}", short(r)));
                    }
                }
                out
            })
            .await;
            ctx.check(out.as_ref().is_some_and(|o| o[..] == ["Ok(())", "Ok(())"]), || format!("{n} at once on Redis ({nodes} nodes): {out:?}"));
            ctx.obs(format!("{n} {good} {out:?}"));
        })
    })
    .direct()
    .about("5-300 challenges, submissions and validations at once, more than a mailbox holds, on a system on Redis")
}
pub fn c21(t: Tier) -> Vec<Scenario> {
    vec![burst21(0), burst21(1), registration(), alike(), only_one(t.or(3, 4), 0), only_one(2, 1), equivalence(0, t.or(4, 5), 0), equivalence(1, t.or(4, 5), 0), equivalence(0, t.or(3, 4), 1), equivalence(1, t.or(3, 4), 1), lives()]
}
