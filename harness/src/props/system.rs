//! C01, C02, C03, C17: the whole system on its in-memory backends.
use super::common::*;
use actix::prelude::*;
use libmcaptcha::errors::{CaptchaError, CaptchaResult};
use libmcaptcha::master::embedded::master::Master;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

type Verdict = CaptchaResult<(String, u32)>;

/// a challenge as it was issued
#[derive(Clone, Debug)]
struct Ch {
    string: String,
    d: u32,
    site: &'static str,
    end: u64,
    used: bool,
}
fn other(site: &str) -> &'static str {
    if site == "a" {
        "b"
    } else {
        "a"
    }
}
fn sites() -> [(&'static str, Cfg); 2] {
    [("a", cfg(&[(1, 3), (50, 40)], 2)), ("b", cfg(&[(50, 7)], 1))]
}
async fn fresh_sys(c: &Ctx, runners: usize, queue: usize) -> Sys {
    let sys = mk_system(Master::new(100_000).start(), HashCache::default().start(), runners, queue);
    for (id, cf) in sites() {
        let r = add(&sys.master, id, &cf).await;
        c.check(r.is_ok(), || short(&r));
    }
    sys
}
async fn issue(c: &Ctx, sys: &Sys, id: &'static str, now: u64) -> Ch {
    match sys.get_pow(id.into()).await {
        Ok(Some(p)) => {
            c.check(p.salt == SALT, || "another salt is handed out".into());
            Ch {
                string: p.string,
                d: p.difficulty_factor,
                site: id,
                end: now + 1000 * sites().iter().find(|s| s.0 == id).unwrap().1.duration,
                used: false,
            }
        }
        r => {
            c.fail(format!("no challenge for {id}: {}", short(&r)));
            Ch {
                string: "none".into(),
                d: 1,
                site: id,
                end: 0,
                used: true,
            }
        }
    }
}
/// work that barely is good enough: it misses the difficulty next above
fn barely(ch: &Ch) -> Work {
    let (nonce, s) = find_nonce(SALT, &ch.string, ch.d, Some(ch.d * 4));
    Work {
        string: ch.string.clone(),
        result: s.to_string(),
        nonce,
        key: ch.site.into(),
    }
}
/// honest work that is not good enough
fn weak(ch: &Ch) -> Work {
    let (nonce, s) = find_nonce(SALT, &ch.string, 1, Some(ch.d));
    Work {
        string: ch.string.clone(),
        result: s.to_string(),
        nonce,
        key: ch.site.into(),
    }
}

/// What the statement says about a submission. Marks the challenge as used.
fn judge(chs: &mut [Ch], w: &Work, now: u64) -> Want {
    let Some(ch) = chs.iter_mut().find(|c| c.string == w.string) else {
        return Want::NotFound;
    };
    if ch.used || now >= ch.end {
        return Want::NotFound;
    }
    ch.used = true;
    if ch.site != w.key {
        return Want::WrongKey;
    }
    if work_is_correct(w, ch.d) {
        Want::Token(ch.d)
    } else {
        Want::Refused
    }
}
#[derive(Debug, PartialEq, Clone)]
enum Want {
    Token(u32),
    NotFound,
    WrongKey,
    Refused,
}
fn verdict_ok(r: &Verdict, w: &Want) -> bool {
    match (r, w) {
        (Ok((t, d)), Want::Token(want)) => d == want && !t.is_empty(),
        (Err(CaptchaError::StringNotFound), Want::NotFound) => true,
        (Err(CaptchaError::MCaptchaKeyValidationFail), Want::WrongKey) => true,
        (Err(e), Want::Refused) => !matches!(e, CaptchaError::StringNotFound | CaptchaError::QueueFull),
        _ => false,
    }
}

const KINDS: usize = 9;
fn submission(ch: &Ch, others: &[Ch], kind: usize) -> (Work, &'static str) {
    let mut w = barely(ch);
    let what = match kind {
        0 => "good work",
        1 => {
            w = weak(ch);
            "honest weak work"
        }
        2 => {
            w = weak(ch);
            w.result = u128::MAX.to_string();
            "weak work with an inflated claim"
        }
        3 => {
            // a nonce that also reaches the difficulty, so that only the claim is wrong
            let (n, _) = (w.nonce + 1..)
                .map(|n| (n, score(SALT, &ch.string, n)))
                .find(|x| x.1 >= score(SALT, &ch.string, w.nonce))
                .unwrap();
            w.nonce = n;
            "the claim of another good nonce"
        }
        4 => {
            w.key = other(ch.site).into();
            "good work for another site"
        }
        5 => {
            // work for another string
            if let Some(o) = others.iter().find(|o| o.string != ch.string) {
                let x = good_work(&o.string, ch.d.max(o.d), ch.site);
                w.nonce = x.nonce;
                w.result = x.result;
            } else {
                w.result = "0".into();
            }
            "work for another string"
        }
        6 => {
            let (n, s) = find_nonce("another salt", &ch.string, ch.d, None);
            w.nonce = n;
            w.result = s.to_string();
            "work with another salt"
        }
        7 => {
            w.result = "x".into();
            "a claim that is no number"
        }
        _ => {
            w.string = format!("{}x", w.string);
            "an unknown string"
        }
    };
    (w, what)
}

/// All sequences of issues, submissions and time steps.
fn submissions(depth: usize) -> Scenario {
    Scenario::new(format!("submissions-d{depth}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let sys = fresh_sys(&c, 1, 5).await;
            let mut chs = vec![issue(&c, &sys, "a", 0).await, issue(&c, &sys, "b", 0).await];
            let mut hist = String::new();
            let mut tokens = BTreeSet::new();
            for _ in 0..depth {
                match pick(3 + KINDS * 2) {
                    k @ (0 | 1) => {
                        let id = ["a", "b"][k];
                        let ch = issue(&c, &sys, id, clock.now()).await;
                        hist += &format!("issue #{} for {id} (d={}); ", chs.len(), ch.d);
                        chs.push(ch);
                    }
                    2 => {
                        hist += "0.6 s; ";
                        clock.pass(600).await;
                    }
                    k => {
                        let i = chs.len() - 1 - (k - 3) / KINDS;
                        let (w, what) = submission(&chs[i], &chs, (k - 3) % KINDS);
                        hist += &format!("{what} #{i}; ");
                        let want = judge(&mut chs, &w, clock.now());
                        let r = sys.verify_pow(w, "ip".into()).await;
                        c.check(verdict_ok(&r, &want), || format!("{hist}: {}, expected {want:?}", short(&r)));
                        if let Ok((t, _)) = r {
                            c.check(tokens.insert(t), || format!("{hist}: the same token twice"));
                        }
                    }
                }
            }
            for i in 0..chs.len() {
                let w = barely(&chs[i]);
                let want = judge(&mut chs, &w, clock.now());
                let r = sys.verify_pow(w, "ip".into()).await;
                c.check(verdict_ok(&r, &want), || {
                    format!("{hist} finally good work #{i}: {}, expected {want:?}", short(&r))
                });
            }
            c.obs(hist);
        })
    })
    .about(format!("two challenges of two sites, then all sequences of {depth} of: issue for either site, 0.6 s, one of {KINDS} kinds of submission to one of the last two challenges; finally good work for all"))
    .shard(2)
}

/// One submission, deviating from good work in one field in every way on a long list.
fn one_submission() -> Scenario {
    Scenario::new("one-submission", 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let sys = fresh_sys(&c, 1, 5).await;
            let mut chs = vec![];
            // two difficulties of site a, one of site b
            for id in ["a", "a", "b"] {
                chs.push(issue(&c, &sys, id, 0).await);
            }
            c.check(chs[0].d == 3 && chs[1].d == 40 && chs[2].d == 7, || format!("difficulties {chs:?}"));
            let i = pick(3);
            let ch = chs[i].clone();
            let mut w = barely(&ch);
            let s = score(SALT, &ch.string, w.nonce);
            let (wn, ws) = {
                let x = weak(&ch);
                (x.nonce, score(SALT, &ch.string, x.nonce))
            };
            let results = [
                s.to_string(),
                (s - 1).to_string(),
                (s + 1).to_string(),
                "0".into(),
                "1".into(),
                u128::MAX.to_string(),
                "340282366920938463463374607431768211456".into(),
                (u128::MAX - u128::MAX / ch.d as u128).to_string(),
                u64::MAX.to_string(),
                (s as u64).to_string(),
                format!("-{s}"),
                format!("{s} "),
                format!(" {s}"),
                format!("{s}.0"),
                format!("{s:x}"),
                format!("{s}\0"),
                "".into(),
                "x".into(),
                ws.to_string(),
                s.to_string().chars().rev().collect::<String>(),
                s.to_string()[1..].to_string(),
                format!("+{s}"),
                format!("0{s}"),
                format!("{s}_"),
                format!("{s}\n"),
                format!("{s:e}"),
                format!("0x{s:x}"),
            ];
            let nonces = [w.nonce + 1, w.nonce - 1, 0, u64::MAX, wn, w.nonce | 1 << 32, w.nonce | 1 << 63, w.nonce * 10];
            let strings = [
                "".to_string(),
                format!("{} ", ch.string),
                ch.string[1..].to_string(),
                ch.string.to_lowercase() + "_",
                ch.site.to_string(),
                chs[(i + 1) % 3].string.clone(),
                chs[(i + 2) % 3].string.clone(),
            ];
            let keys = ["b", "", "A", "a ", " a", "aa", "a/b", "c", "B", "bb"];
            // which field deviates
            let what = match pick(8) {
                0 => {
                    w.result = results[pick(results.len())].clone();
                    format!("result {}", w.result)
                }
                1 => {
                    w.nonce = nonces[pick(nonces.len())];
                    format!("nonce {}", w.nonce)
                }
                2 => {
                    // honest about the deviating nonce
                    w.nonce = nonces[pick(nonces.len())];
                    w.result = score(SALT, &ch.string, w.nonce).to_string();
                    format!("honest nonce {}", w.nonce)
                }
                3 => {
                    w.string = strings[pick(strings.len())].clone();
                    format!("string {}", w.string)
                }
                4 => {
                    // work for the deviating string
                    w.string = strings[pick(strings.len())].clone();
                    let x = good_work(&w.string, 40, ch.site);
                    w.nonce = x.nonce;
                    w.result = x.result;
                    format!("string {} and work for it", w.string)
                }
                5 => {
                    let k = keys[pick(keys.len())];
                    w.key = if k == ch.site { "a".into() } else { k.into() };
                    format!("key {:?}", w.key)
                }
                6 => {
                    let t = ["", "another", "harness salt of the system under tes", "harness salt of the system under test "][pick(4)];
                    let (n, s) = find_nonce(t, &ch.string, ch.d, None);
                    w.nonce = n;
                    w.result = s.to_string();
                    format!("salt {t:?}")
                }
                _ => {
                    // all works of the least and of the next better quality
                    let q = pick(4);
                    let (n, s) = match q {
                        0 => find_nonce(SALT, &ch.string, ch.d, Some(ch.d + 1)),
                        1 => find_nonce(SALT, &ch.string, ch.d - 1, Some(ch.d)),
                        2 => find_nonce(SALT, &ch.string, ch.d * 50, None),
                        _ => find_nonce(SALT, &ch.string, 1, Some(2)),
                    };
                    w.nonce = n;
                    w.result = s.to_string();
                    format!("quality {q}")
                }
            };
            // and when
            let life = ch.end;
            let when = [0, 200, life - 200, life + 200, life + 1000][pick(5)];
            clock.pass(when).await;
            let want = judge(&mut chs, &w, clock.now());
            let ip = ["", "10.0.0.1", "::1"][i];
            let r = sys.verify_pow(w.clone(), ip.into()).await;
            c.obs(format!("#{i} {what} after {when}: {}", if r.is_ok() { "token".into() } else { short(&r) }));
            c.check(verdict_ok(&r, &want), || {
                format!("challenge {i} (d={}), {what}, after {when} ms: {}, expected {want:?}", ch.d, short(&r))
            });
            if let Ok((t, _)) = &r {
                let v = validate(&sys, t, ch.site).await;
                c.check(v == Ok(true), || format!("the token is not valid: {}", short(&v)));
            }
            // then good work for all of them
            for i in 0..chs.len() {
                let w = barely(&chs[i]);
                let want = judge(&mut chs, &w, clock.now());
                let r = sys.verify_pow(w, ip.into()).await;
                c.check(verdict_ok(&r, &want), || {
                    format!("{what} after {when} ms, then good work for #{i}: {}, expected {want:?}", short(&r))
                });
            }
        })
    })
    .about("one submission to one of three challenges of different difficulty, deviating from good work in result, nonce, string, key, salt or quality in every listed way, at 5 moments around the end of the challenge; then good work for all")
    .shard(2)
}

/// Sites of every difficulty.
fn difficulties(cheap: bool) -> Scenario {
    const D: [u32; 15] = [1, 2, 3, 4, 5, 9, 15, 16, 17, 100, 255, 256, 257, 1000, 4096];
    // no work reaches these in reasonable time: only what has to be refused is tried
    const HUGE: [u32; 5] = [1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX - 1, u32::MAX];
    Scenario::new("difficulties", 0, move |c: Ctx| {
        exec::block_on(async move {
            let n = if cheap { D.len() - 1 } else { D.len() };
            let k = pick(n + HUGE.len());
            let huge = k >= n;
            let d = if huge { HUGE[k - n] } else { D[k] };
            let sys = mk_system(Master::new(100_000).start(), HashCache::default().start(), 1, 5);
            let r = add(&sys.master, "a", &cfg(&[(50, d)], 2)).await;
            c.check(r.is_ok(), || short(&r));
            let r = add(&sys.master, "b", &cfg(&[(50, 1)], 2)).await;
            c.check(r.is_ok(), || short(&r));
            let mut chs = vec![];
            for site in ["a", "b"] {
                match sys.get_pow(site.into()).await {
                    Ok(Some(p)) => chs.push(Ch { string: p.string, d: p.difficulty_factor, site, end: 2000, used: false }),
                    r => return c.fail(short(&r)),
                }
            }
            c.check(chs[0].d == d, || format!("difficulty {} instead of {d}", chs[0].d));
            let string = chs[0].string.clone();
            // the nonce nearest above or below the difficulty
            let reach = if huge { 1 << 12 } else { d };
            let wide = |d: u32| if d <= 17 { d + 1 } else { d + d / 2 };
            let above = || find_nonce(SALT, &string, reach, (!huge).then(|| wide(d)));
            let below = || match d {
                1 => None,
                _ if huge => Some(find_nonce(SALT, &string, 1 << 10, None)),
                2..=17 => Some(find_nonce(SALT, &string, d - 1, Some(d))),
                _ => Some(find_nonce(SALT, &string, d - d / 2, Some(d))),
            };
            let mut w = Work { string: string.clone(), result: String::new(), nonce: 0, key: "a".into() };
            let what = pick(9);
            match what {
                0 | 1 | 2 | 3 | 4 => {
                    let (n, s) = above();
                    w.nonce = n;
                    w.result = match what {
                        0 => s.to_string(),
                        1 => (s + 1).to_string(),
                        2 => (s - 1).to_string(),
                        3 => u128::MAX.to_string(),
                        _ => "1".into(),
                    };
                }
                5 | 6 => {
                    let Some((n, s)) = below() else { return };
                    w.nonce = n;
                    w.result = match what {
                        5 => s.to_string(),
                        _ => u128::MAX.to_string(),
                    };
                }
                7 => {
                    // any nonce, whatever it claims
                    w.result = "not a number".into();
                    w.nonce = 1;
                }
                _ => {
                    w.key = "b".into();
                    let (n, s) = above();
                    w.nonce = n;
                    w.result = s.to_string();
                }
            }
            let mut l = chs.clone();
            let want = judge(&mut l, &w, 0);
            let r = sys.verify_pow(w, "ip".into()).await;
            c.obs(format!("difficulty {d}, {what}: {want:?}"));
            c.check(verdict_ok(&r, &want), || format!("difficulty {d}, submission {what}: {}, expected {want:?}", short(&r)));
            let r = sys.verify_pow(good_work(&chs[1].string, 1, "b"), "ip".into()).await;
            c.check(matches!(&r, Ok((_, 1))), || format!("difficulty {d}, submission {what}, then another site's: {}", short(&r)));
        })
    })
    .about(format!("difficulties {D:?} and (refusals only) {HUGE:?}: work just good enough with right and wrong claims, work just not good enough with an honest and an inflated claim, nonsense, another site"))
    .shard(2)
}
/// a string for which nonces of high quality are known
const HIGH: &str = "thestringofthehighdifficulties00";
/// nonces for [`HIGH`], by the difficulty they reach (mined once: 1.6e10 hashes)
const HIGH_NONCES: [u64; 61] = [
    99241, 139278, 22004, 26868, 230121, 244903, 181029, 156072,
    1232908, 430112, 49225, 107510, 1730899, 688087, 98970, 2540728,
    822077, 3544422, 269464, 538465, 7697463, 37654758, 14924206, 6941529,
    3440197, 19278718, 13055918, 38951047, 26330989, 14681472, 25667208, 155645153,
    22891949, 650568047, 573918062, 96028338, 159032939, 350858897, 298726890, 1093870859,
    891167439, 646933289, 1146348432, 1151129633, 2617913897, 4526874868, 7946439417, 3765288754,
    9873308559, 8597415233, 5900369725, 9813495633, 1353455211, 8021753460, 346895723, 13276812933,
    5014284839, 6792667208, 1893541965, 4035756988, 698250884,
];
/// the nonces and the greatest difficulty each reaches, by difficulty
fn high_nonces() -> Vec<(u64, u128)> {
    let mut v: Vec<(u64, u128)> = (1..40).chain(HIGH_NONCES).map(|n| (n, u128::MAX / (u128::MAX - score(SALT, HIGH, n)))).collect();
    v.sort_by_key(|x| x.1);
    v
}
/// Every size of difficulty, with the work that barely reaches and the one that barely misses it.
fn high_difficulties(low: u32, chunk: u32) -> Scenario {
    let mut ds: Vec<u32> = (1..=low).collect();
    for (_, d) in high_nonces() {
        for x in [d - 1, d, d + 1, d + d / 2, d / 2 + 1] {
            ds.extend(u32::try_from(x));
        }
    }
    for k in 0..32 {
        for x in -3..=3 {
            ds.extend(u32::try_from((1i64 << k) + x));
            ds.extend(u32::try_from((3i64 << k) + x));
        }
    }
    for k in 0..10 {
        for f in 1..=9 {
            for x in -1..=1 {
                ds.extend(u32::try_from(f * 10i64.pow(k) + x));
            }
        }
    }
    ds.extend((0..8).map(|x| u32::MAX - x));
    ds.retain(|&d| d > 0);
    ds.sort();
    ds.dedup();
    let ds = Arc::new(ds);
    let all = ds.len();
    Scenario::new(format!("high-difficulties-{low}"), 0, move |c: Ctx| {
        let ds = ds.clone();
        exec::block_on(async move {
            let nonces = high_nonces();
            let cache = HashCache::default().start();
            let sys = mk_system(Master::new(100_000).start(), cache.clone(), 1, 5);
            let k = pick(ds.len().div_ceil(chunk as usize)) * chunk as usize;
            for (i, &d) in ds[k..].iter().take(chunk as usize).enumerate() {
                // the worst that is good enough, the best that is not, the best there is
                let above = nonces.iter().find(|n| n.1 >= d as u128).unwrap();
                let below = nonces.iter().rev().find(|n| n.1 < d as u128);
                for (n, claim) in [Some((above.0, false)), below.map(|b| (b.0, false)), below.map(|b| (b.0, true)), nonces.last().map(|b| (b.0, false))].into_iter().flatten() {
                    let key = ["a", "b"][i % 2];
                    let m = cm::CachePoW { string: HIGH.into(), difficulty_factor: d, duration: 60, key: key.into() };
                    let r = ask(&cache, m).await;
                    c.check(r.is_ok(), || short(&r));
                    let s = score(SALT, HIGH, n);
                    let w = Work { string: HIGH.into(), result: if claim { u128::MAX } else { s }.to_string(), nonce: n, key: key.into() };
                    let mut chs = [Ch { string: HIGH.into(), d, site: key, end: 60_000, used: false }];
                    let want = judge(&mut chs, &w, 0);
                    let r = sys.verify_pow(w, "ip".into()).await;
                    c.check(verdict_ok(&r, &want), || format!("difficulty {d}, nonce {n}, inflated: {claim}: {}, expected {want:?}", short(&r)));
                    if let Ok((t, _)) = r {
                        let v = validate(&sys, &t, key).await;
                        c.check(v == Ok(true), || format!("difficulty {d}: the token: {}", short(&v)));
                    }
                    if c.failed() {
                        return;
                    }
                }
            }
            c.obs(format!("{k}"));
        })
    })
    .steps(4000 * chunk as usize)
    .about(format!("{all} difficulties: all up to {low}, around powers of 2 and round numbers up to 2^32-1, and where the work of mined nonces ends: the least that suffices, the most that does not (honest and inflated), the best there is"))
}
/// Many challenges and submissions, one after the other.
fn many_submissions(n: usize) -> Scenario {
    Scenario::new(format!("many-submissions-{n}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let sys = fresh_sys(&c, 2, 5).await;
            let order = pick(3);
            let mut chs = vec![];
            for _ in 0..n {
                chs.push(issue(&c, &sys, "b", 0).await);
            }
            let mut tokens = BTreeSet::new();
            for k in 0..n {
                let i = [k, n - 1 - k, k * 7919 % n][order];
                let (w, what) = submission(&chs[i].clone(), &chs, if k % 4 == 0 { k / 4 % KINDS } else { 0 });
                let want = judge(&mut chs, &w, 0);
                let r = sys.verify_pow(w, format!("10.0.{}.1", k % 3)).await;
                if !c.check(verdict_ok(&r, &want), || format!("submission {k}, {what} #{i}: {}, expected {want:?}", short(&r))) {
                    return;
                }
                if let Ok((t, _)) = r {
                    c.check(tokens.insert(t), || format!("submission {k}: the same token twice"));
                }
            }
            for t in &tokens {
                let r = validate(&sys, t, "b").await;
                if !c.check(r == Ok(true), || format!("{n} submissions, then a token: {}", short(&r))) {
                    return;
                }
            }
            c.obs(format!("{n} {order}"));
        })
    })
    .steps(10_000 * n)
    .about(format!("{n} challenges, all submitted to in 3 orders, one in four not with good work; then all tokens are validated"))
}
/// Good work may have any nonce.
fn nonces() -> Scenario {
    Scenario::new("nonces", 0, move |c: Ctx| {
        exec::block_on(async move {
            const FROM: [u64; 8] = [0, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 63, u64::MAX - (1 << 20)];
            let sys = fresh_sys(&c, 1, 5).await;
            let mut chs = vec![issue(&c, &sys, "b", 0).await];
            let ch = chs[0].clone();
            let from = FROM[pick(FROM.len())];
            let good = pick(2) == 1;
            let nonce = (from..).find(|&n| work_reaches(&ch.string, n, ch.d) == good).unwrap();
            let w = Work {
                string: ch.string.clone(),
                result: score(SALT, &ch.string, nonce).to_string(),
                nonce,
                key: ch.site.into(),
            };
            let want = judge(&mut chs, &w, 0);
            let r = sys.verify_pow(w, "ip".into()).await;
            c.check(verdict_ok(&r, &want), || format!("nonce {nonce} (good: {good}): {}, expected {want:?}", short(&r)));
            c.obs(format!("{from} {good}"));
        })
    })
    .about("honest work with the first good or bad nonce from 0, 2^8, 2^16, 2^31, 2^32, 2^53, 2^63 and near 2^64 on")
}
fn work_reaches(string: &str, nonce: u64, d: u32) -> bool {
    let s = score(SALT, string, nonce);
    let w = Work { string: string.into(), result: s.to_string(), nonce, key: String::new() };
    work_is_correct(&w, d)
}
/// Sites whose names are alike, and challenges for strings that are alike.
fn site_names() -> Scenario {
    Scenario::new("site-names", 0, move |c: Ctx| {
        exec::block_on(async move {
            let (x, y) = pick_names();
            let sys = mk_system(Master::new(100_000).start(), HashCache::default().start(), 1, 5);
            for (n, d) in [(&x, 2), (&y, 3)] {
                let r = add(&sys.master, n, &cfg(&[(50, d)], 2)).await;
                c.check(r.is_ok(), || short(&r));
            }
            let mut strings = vec![];
            for (n, d) in [(&x, 2), (&y, 3), (&x, 2)] {
                match sys.get_pow(n.clone()).await {
                    Ok(Some(p)) if p.difficulty_factor == d => strings.push(p.string),
                    r => return c.fail(format!("{x:?} and {y:?}: a challenge for {n:?}: {}", short(&r))),
                }
            }
            let r = sys.verify_pow(good_work(&strings[0], 3, &y), x.clone()).await;
            c.check(r == Err(CaptchaError::MCaptchaKeyValidationFail), || format!("work for {x:?} submitted for {y:?}: {}", short(&r)));
            let r = sys.verify_pow(good_work(&strings[0], 3, &x), x.clone()).await;
            c.check(r == Err(CaptchaError::StringNotFound), || format!("that work again for {x:?}: {}", short(&r)));
            for (s, n, o, d) in [(1, &y, &x, 3), (2, &x, &y, 2)] {
                let r = sys.verify_pow(good_work(&strings[s], d, n), y.clone()).await;
                match r {
                    Ok((t, got)) if got == d => {
                        let v = validate(&sys, &t, n).await;
                        c.check(v == Ok(true), || format!("{x:?} and {y:?}: the token of {n:?} is not valid: {}", short(&v)));
                        let v = validate(&sys, &t, o).await;
                        c.check(v == Ok(false), || format!("{x:?} and {y:?}: the token of {n:?} for {o:?}: {}", short(&v)));
                    }
                    r => c.fail(format!("{x:?} and {y:?}: work for {n:?}: {}", short(&r))),
                }
            }
            c.obs(format!("{x} {y}"));
        })
    })
    .about(format!("{}, as sites", pairs()))
    .shard(1)
}
pub fn durations() -> Vec<u64> {
    let mut durs: Vec<u64> = vec![1, 2, 3, 4, 5, 7, 9, 10, 12, 15, 20, 24, 25, 40, 45, 48, 50, 90, 1000, 1024, 4096, 10_000, 32_768, 65_535, 65_536, 100_000, 1_000_000, 16_777_216, 16_777_217, 30_000_000, 33_554_433];
    for d in [30, 60, 100, 120, 180, 240, 255, 300, 500, 600, 900, 1200, 1800, 3600, 7200, 21_600, 43_200, 86_400, 604_800, 2_592_000] {
        durs.extend([d - 1, d, d + 1]);
    }
    durs
}
/// challenges and tokens live as long as their site says, whatever that is
pub fn whole_lives() -> Scenario {
    Scenario::new("whole-lives", 0, |c: Ctx| {
        exec::block_on(async move {
            let durs = durations();
            let d = durs[pick(durs.len())];
            let (challenge_late, token_late) = match pick(3) {
                0 => (true, false),
                1 => (false, false),
                _ => (false, true),
            };
            let cf = cfg(&[(50, 7)], d);
            let sys = mk_system(Master::new(60_000_000).start(), HashCache::default().start(), 1, 5);
            let r = add(&sys.master, "b", &cf).await;
            c.check(r.is_ok(), || short(&r));
            let mut ch = issue(&c, &sys, "b", 0).await;
            ch.end = d * 1000;
            exec::pass_ms(d * 1000 - 200, 1 << 40).await;
            let mut now = d * 1000 - 200;
            if challenge_late {
                exec::pass_ms(400, 200).await;
                now += 400;
            }
            let w = barely(&ch);
            let mut chs = [ch];
            let want = judge(&mut chs, &w, now);
            let r = sys.verify_pow(w.clone(), "ip".into()).await;
            c.check(verdict_ok(&r, &want), || format!("a challenge of {d} s after {now} ms: {}, expected {want:?}", short(&r)));
            c.obs(format!("{d} {now} {}", short(&r)));
            let want = judge(&mut chs, &w, now);
            let again = sys.verify_pow(w, "ip".into()).await;
            c.check(verdict_ok(&again, &want), || format!("a challenge of {d} s submitted again: {}, expected {want:?}", short(&again)));
            let Ok((token, _)) = r else { return };
            exec::pass_ms(d * 1000 - 200, 1 << 40).await;
            if token_late {
                exec::pass_ms(400, 200).await;
            }
            let r = validate(&sys, &token, "b").await;
            c.check(r == Ok(!token_late), || format!("a token of {d} s 0.2 s {} its end: {}", if token_late { "after" } else { "before" }, short(&r)));
            let r = validate(&sys, &token, "b").await;
            c.check(r == Ok(false), || format!("a token of {d} s validated again: {}", short(&r)));
        })
    })
    .about("sites of 91 durations from 1 s to 388 days: the challenge and then the token used twice 0.2 s before and after their ends")
}
pub fn c01(t: Tier) -> Vec<Scenario> {
    vec![one_submission(), submissions(t.or(4, 5)), difficulties(t == Tier::Quick), high_difficulties(t.or(5000, 70_000), 250), site_names(), many_submissions(t.or(1100, 5000)), nonces(), whole_lives()]
}

// ---- C02 -----------------------------------------------------------------------------
#[derive(Clone, Copy)]
struct Par {
    n: usize,
    runners: usize,
    /// the first submission runs on an executor of its own
    threads: bool,
    bound: u32,
}
impl Par {
    fn name(&self, what: &str) -> String {
        format!(
            "{what}-{}-r{}{}-b{}",
            self.n,
            self.runners,
            if self.threads { "-2exec" } else { "" },
            self.bound
        )
    }
}
/// Runs the works concurrently and returns the verdicts (None: no answer).
async fn concurrently(
    sys: &Arc<Sys>,
    works: Vec<(Work, String)>,
    threads: bool,
    abandon: Option<u32>,
) -> Vec<Option<Verdict>> {
    exec::explore_tasks(true);
    let j = Join::new();
    let mut elsewhere = None;
    for (i, (w, ip)) in works.into_iter().enumerate() {
        let sys = sys.clone();
        if threads && i == 0 {
            let (tx, rx) = tokio::sync::oneshot::channel();
            let h = std::thread::spawn(move || {
                exec::block_on(async move {
                    let r = sys.verify_pow(w, ip).await;
                    drop(sys);
                    let _ = tx.send(r);
                })
            });
            elsewhere = Some((h, rx));
            continue;
        }
        let polls = if i == 0 { abandon } else { None };
        j.go(async move {
            match polls {
                None => Some(sys.verify_pow(w, ip).await),
                Some(n) => {
                    Abandon {
                        f: Some(Box::pin(async move { sys.verify_pow(w, ip).await })),
                        n: Cell::new(n),
                    }
                    .await
                }
            }
        });
    }
    let mut out = vec![];
    if let Some((h, rx)) = elsewhere {
        out.push(rx.await.ok());
        exec::idle().await;
        let _ = h.join();
    }
    for r in j.settle().await {
        out.push(match r {
            None => None,
            Some(None) => Some(Err(CaptchaError::LevelEmpty)), // abandoned: no verdict wanted
            Some(Some(r)) => Some(r),
        });
    }
    exec::explore_tasks(false);
    out
}
/// drops the future after `n` polls that did not end it
struct Abandon {
    f: Option<Pin<Box<dyn Future<Output = Verdict>>>>,
    n: Cell<u32>,
}
impl Future for Abandon {
    type Output = Option<Verdict>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.n.get() == 0 {
            self.f = None;
            return Poll::Ready(None);
        }
        let r = self.f.as_mut().unwrap().as_mut().poll(cx);
        match r {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                self.n.set(self.n.get() - 1);
                if self.n.get() == 0 {
                    self.f = None;
                    return Poll::Ready(None);
                }
                Poll::Pending
            }
        }
    }
}
fn vs(r: &[Option<Verdict>]) -> String {
    let v: Vec<String> = r
        .iter()
        .map(|r| match r {
            None => "unanswered".into(),
            Some(Ok((_, d))) => format!("token({d})"),
            Some(Err(e)) => e2s(e),
        })
        .collect();
    v.join(", ")
}

fn one_challenge(p: Par) -> Scenario {
    Scenario::new(p.name("one-challenge"), p.bound, move |c: Ctx| {
        exec::block_on(async move {
            let sys = Arc::new(fresh_sys(&c, p.runners, 5).await);
            let ch = issue(&c, &sys, "b", 0).await;
            // all good; one bad in some way; all bad
            let mix = pick(4);
            let same_ip = pick(2) == 1;
            let mut works = vec![];
            for i in 0..p.n {
                let mut w = barely(&ch);
                match (mix, i) {
                    (1, 0) => w = weak(&ch),
                    (2, 0) => w.key = "a".into(),
                    (3, _) => w = weak(&ch),
                    _ => {}
                }
                works.push((w, format!("10.0.0.{}", if same_ip { 0 } else { i })));
            }
            let right: Vec<bool> = works.iter().map(|(w, _)| w.key == ch.site && work_is_correct(w, ch.d)).collect();
            exec::idle().await;
            let res = concurrently(&sys, works, p.threads, None).await;
            c.obs(format!("mix {mix}: {}", vs(&res)));
            let what = || format!("submissions (correct: {right:?}): {}", vs(&res));
            c.check(res.iter().all(|r| r.is_some()), || format!("not all are answered; {}", what()));
            let notfound = res.iter().filter(|r| matches!(r, Some(Err(CaptchaError::StringNotFound)))).count();
            c.check(notfound == p.n - 1, || format!("{notfound} are told that the string is not there; {}", what()));
            let tokens = res.iter().filter(|r| matches!(r, Some(Ok(_)))).count();
            c.check(tokens <= 1, || format!("{tokens} tokens; {}", what()));
            if right.iter().all(|&r| r) {
                c.check(tokens == 1, || format!("no token; {}", what()));
            }
            for (r, &ok) in res.iter().zip(&right) {
                if let Some(Ok((_, d))) = r {
                    c.check(ok && *d == ch.d, || format!("a token for wrong work; {}", what()));
                }
            }
            // and later ones
            let r = sys.verify_pow(barely(&ch), "later".into()).await;
            c.check(r == Err(CaptchaError::StringNotFound), || format!("{}; a later submission: {}", what(), short(&r)));
        })
    })
    .about(format!("{} concurrent submissions of one challenge, {} verification threads{}; all good, one weak, one of another site, all weak; one or several addresses; every interleaving up to {} deviations", p.n, p.runners, if p.threads { ", two executor threads" } else { "" }, p.bound))
}
fn challenge_reuse(depth: usize) -> Scenario {
    Scenario::new(format!("reuse-d{depth}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let sys = fresh_sys(&c, 1, 5).await;
            let mut chs = vec![issue(&c, &sys, "a", 0).await, issue(&c, &sys, "b", 0).await];
            let mut hist = String::new();
            for _ in 0..depth {
                let k = pick(2 * 3 + 2);
                if k == 6 {
                    hist += "0.2 s; ";
                    clock.pass(200).await;
                    continue;
                }
                if k == 7 {
                    // unrelated traffic
                    hist += "issue; ";
                    chs.push(issue(&c, &sys, "a", clock.now()).await);
                    continue;
                }
                let (w, what) = submission(&chs[k / 3].clone(), &chs, [0, 1, 4][k % 3]);
                hist += &format!("{what} #{}; ", k / 3);
                let want = judge(&mut chs, &w, clock.now());
                let r = sys.verify_pow(w, "ip".into()).await;
                c.check(verdict_ok(&r, &want), || format!("{hist}: {}, expected {want:?}", short(&r)));
            }
            c.obs(hist);
        })
    })
    .about(format!("all sequences of {depth} of: good, weak or misaddressed submission to one of two challenges, 0.2 s, another issue"))
    .shard(2)
}
pub fn c02(t: Tier) -> Vec<Scenario> {
    let p = |n, runners, threads, bound| Par { n, runners, threads, bound };
    vec![
        challenge_reuse(t.or(6, 7)),
        super::faults::resubmitted(),
        whole_lives(),
        one_challenge(p(2, 1, false, t.or(3, 4))),
        one_challenge(p(2, 2, false, t.or(3, 4))),
        one_challenge(p(3, 1, false, t.or(2, 3))),
        one_challenge(p(2, 1, true, t.or(2, 3))),
        one_challenge(p(3, 2, true, t.or(1, 2))),
    ]
}

/// Submissions of one address are never too many addresses, for C10
pub fn one_address(n: usize, threads: bool, bound: u32) -> Scenario {
    Scenario::new(format!("one-address-{n}{}-b{bound}", if threads { "-2exec" } else { "" }), bound, move |c: Ctx| {
        exec::block_on(async move {
            let sys = Arc::new(fresh_sys(&c, 1, 2).await);
            let sites = pick(3);
            let good = pick(2) == 1;
            let ip = ["10.0.0.1", "", "2001:db8::1"][pick(3)];
            let mut works = vec![];
            for i in 0..n {
                let ch = issue(&c, &sys, [["a", "a"], ["b", "b"], ["a", "b"]][sites][i % 2], 0).await;
                works.push((if good { barely(&ch) } else { weak(&ch) }, ip.to_string()));
            }
            exec::idle().await;
            let res = concurrently(&sys, works, threads, None).await;
            let what = || format!("{n} submissions of one address, up to 2 addresses may wait: {}", vs(&res));
            c.obs(what());
            c.check(!res.iter().any(|r| matches!(r, Some(Err(CaptchaError::QueueFull)))), what);
        })
    })
    .about(format!("{n} concurrent submissions from one address, to one site or two, good or weak, to a system in which two addresses may wait: none is refused; every interleaving up to {bound} deviations"))
}

// ---- C03 -----------------------------------------------------------------------------
fn all_answered(p: Par, abandon: bool) -> Scenario {
    Scenario::new(p.name(if abandon { "abandoned" } else { "answered" }), p.bound, move |c: Ctx| {
        exec::block_on(async move {
            let sys = Arc::new(fresh_sys(&c, p.runners, 5).await);
            let mut chs = vec![];
            for _ in 0..p.n + 2 {
                chs.push(issue(&c, &sys, "b", 0).await);
            }
            // how good each of them is
            let mut works = vec![];
            let mut wants = vec![];
            let ips = pick(2);
            let mut hist = String::new();
            for i in 0..p.n {
                let k = [0, 1, 2, 7][pick(if abandon && i > 0 { 2 } else { 4 })];
                let (w, what) = submission(&chs[i].clone(), &chs, k);
                hist += &format!("{what}; ");
                wants.push(judge(&mut chs, &w, 0));
                works.push((w, format!("10.0.0.{}", if ips == 0 { 0 } else { i })));
            }
            let left = if abandon { Some(1 + pick(4) as u32) } else { None };
            exec::idle().await;
            let res = concurrently(&sys, works, p.threads, left).await;
            c.obs(format!("{hist}left after {left:?} polls: {}", vs(&res)));
            for (i, (r, w)) in res.iter().zip(&wants).enumerate() {
                let ok = match r {
                    None => false,
                    Some(Err(CaptchaError::LevelEmpty)) if i == 0 && left.is_some() => true,
                    Some(r) => verdict_ok(r, w),
                };
                c.check(ok, || format!("{hist}(left after {left:?} polls): {}; expected {wants:?}", vs(&res)));
            }
            // later submissions are served, by every thread
            let n = chs.len();
            for i in n - 2..n {
                let w = barely(&chs[i]);
                let r = sys.verify_pow(w, "10.0.0.0".into()).await;
                c.check(r.is_ok(), || format!("{hist}(left after {left:?} polls): {}; a later submission: {}", vs(&res), short(&r)));
            }
        })
    })
    .about(format!("{} concurrent submissions of different challenges, each good, weak, inflated or no number, same or different addresses, {} verification threads{}{}; every interleaving up to {} deviations; two more afterwards", p.n, p.runners, if p.threads { ", two executor threads" } else { "" }, if abandon { ", the first one abandoned after 1-4 polls" } else { "" }, p.bound))
}
/// submissions beyond the limit of the queue are answered too, and at once
fn crowded(n: usize, limit: usize, runners: usize, threads: bool, bound: u32) -> Scenario {
    Scenario::new(format!("crowded-{n}-l{limit}-r{runners}{}-b{bound}", if threads { "-2exec" } else { "" }), bound, move |c: Ctx| {
        exec::block_on(async move {
            let sys = Arc::new(fresh_sys(&c, runners, limit).await);
            let mut chs = vec![];
            for _ in 0..n + 2 {
                chs.push(issue(&c, &sys, "b", 0).await);
            }
            let bad = pick(2) == 1;
            let mut works = vec![];
            let mut wants = vec![];
            for i in 0..n {
                let (w, _) = submission(&chs[i].clone(), &chs, if bad { 2 } else { 0 });
                wants.push(judge(&mut chs, &w, 0));
                works.push((w, format!("10.0.0.{i}")));
            }
            exec::idle().await;
            let res = concurrently(&sys, works, threads, None).await;
            c.obs(format!("bad {bad}: {}", vs(&res)));
            for (r, w) in res.iter().zip(&wants) {
                let ok = match r {
                    None => false,
                    Some(Err(CaptchaError::QueueFull)) => true,
                    Some(r) => verdict_ok(r, w),
                };
                c.check(ok, || format!("{}; expected {wants:?}", vs(&res)));
            }
            exec::idle().await;
            for i in n..n + 2 {
                let w = barely(&chs[i]);
                let r = sys.verify_pow(w, "10.0.0.0".into()).await;
                // a queue of no length may refuse everything
                let full_ok = limit == 0 && r == Err(CaptchaError::QueueFull);
                c.check(r.is_ok() || full_ok, || format!("{}; a later submission: {}", vs(&res), short(&r)));
            }
        })
    })
    .about(format!("{n} concurrent submissions of different addresses against a queue limit of {limit}, {runners} verification threads; every interleaving up to {bound} deviations"))
}
/// a stream of bad submissions, one after the other, does not wear the threads out
fn stream(len: usize) -> Scenario {
    Scenario::new(format!("stream-{len}"), 1, move |c: Ctx| {
        exec::block_on(async move {
            let runners = 1 + pick(2);
            let sys = Arc::new(fresh_sys(&c, runners, 2).await);
            let kind = [0, 1, 2, 7][pick(4)];
            let same = pick(2) == 1;
            for i in 0..len {
                let mut chs = vec![issue(&c, &sys, "b", 0).await];
                let (w, what) = submission(&chs[0].clone(), &chs, kind);
                let want = judge(&mut chs, &w, 0);
                let r = sys.verify_pow(w, if same { "ip".into() } else { format!("10.0.0.{i}") }).await;
                c.check(verdict_ok(&r, &want), || format!("number {i} of {what}: {}, expected {want:?}", short(&r)));
            }
            let ch = issue(&c, &sys, "b", 0).await;
            let r = sys.verify_pow(barely(&ch), "new".into()).await;
            c.check(r.is_ok(), || format!("after the stream: {}", short(&r)));
        })
    })
    .about(format!("{len} submissions of one kind in a row from one or many addresses, then a good one, 1-2 verification threads, every interleaving up to 1 deviation"))
    .steps(200_000)
}
/// stored challenges that cannot be evaluated
fn odd_challenges(most: usize, bound: u32) -> Scenario {
    Scenario::new(format!("odd-challenges-{most}-b{bound}"), bound, move |c: Ctx| {
        exec::block_on(async move {
            let runners = 1 + pick(2);
            let cache = HashCache::default().start();
            let sys = Arc::new(mk_system(Master::new(100_000).start(), cache.clone(), runners, 5));
            let r = add(&sys.master, "b", &sites()[1].1).await;
            c.check(r.is_ok(), || short(&r));
            let n = 1 + pick(most);
            let good = issue(&c, &sys, "b", 0).await;
            for i in 0..n {
                let m = cm::CachePoW { string: format!("odd{i}"), difficulty_factor: 0, duration: 60, key: "b".into() };
                let r = cache.send(m).await;
                c.check(r.is_ok(), || "the challenge is not stored".into());
            }
            let j = Join::new();
            let at = pick(n + 1);
            let mut wants = vec![];
            for i in 0..=n {
                let w = if i == at {
                    barely(&good)
                } else {
                    Work { string: format!("odd{}", i - (i > at) as usize), result: "5".into(), nonce: 1, key: "b".into() }
                };
                wants.push(i == at);
                let sys = sys.clone();
                j.go(async move { sys.verify_pow(w, format!("10.0.0.{i}")).await });
            }
            let res: Vec<Option<Verdict>> = j.settle().await;
            c.obs(vs(&res));
            for (r, want) in res.iter().zip(&wants) {
                c.check(r.is_some(), || format!("{n} challenges of difficulty 0, {runners} threads: not all are answered: {}", vs(&res)));
                c.check(!want || matches!(r, Some(Ok(_))), || format!("{n} challenges of difficulty 0, {runners} threads: {}", vs(&res)));
            }
            if c.failed() {
                return;
            }
            for i in 0..2 {
                let ch = issue(&c, &sys, "b", 0).await;
                let r = sys.verify_pow(barely(&ch), "new".into()).await;
                c.check(r.is_ok(), || format!("number {i} after them: {}", short(&r)));
            }
            c.check(exec::task_panics() == 0, || "a panic".into());
            drop(sys);
        })
    })
    .tolerates("divide by zero")
    .about(format!("1-{most} submissions at once whose stored challenge has difficulty 0, together with a good one, then two good ones and the end of the system; 1-2 verification threads"))
}
/// however long it takes until a verification thread gets to run
fn slow(spins: u64) -> Scenario {
    Scenario::new(format!("slow-{spins}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            const LIFE: u64 = 30_000_000;
            let runners = 1 + pick(2);
            let n = 1 + pick(3);
            let cf = cfg(&[(50, 7)], LIFE);
            let sys = Arc::new(mk_system(Master::new(LIFE).start(), HashCache::default().start(), runners, 5));
            let r = add(&sys.master, "b", &cf).await;
            c.check(r.is_ok(), || short(&r));
            let mut chs = vec![];
            for _ in 0..=n {
                let mut ch = issue(&c, &sys, "b", 0).await;
                ch.end = 1000 * LIFE;
                chs.push(ch);
            }
            let kind = [0, 1, 7][pick(3)];
            let mut works = vec![];
            let mut wants = vec![];
            for i in 0..n {
                let (w, _) = submission(&chs[i].clone(), &chs, if i == 0 { 0 } else { kind });
                wants.push(judge(&mut chs, &w, 0));
                works.push(w);
            }
            exec::idle().await;
            // who waits in vain: a thread that polls or waits with a limit, or a timer
            let skip = pick(6);
            let yields = if skip == 5 { pick(8) } else { 0 };
            if skip < 5 {
                vsched::set_slow(skip as u32, spins, 3600 * 1_000_000_000);
            }
            let j = Join::new();
            for (i, w) in works.into_iter().enumerate() {
                let sys = sys.clone();
                j.go(async move { sys.verify_pow(w, format!("10.0.0.{i}")).await });
            }
            if skip == 5 {
                for _ in 0..yields {
                    tokio::task::yield_now().await;
                }
                exec::advance_ms(3_600_000);
            }
            let res: Vec<Option<Verdict>> = j.settle().await;
            vsched::set_slow(u32::MAX, 1, 1);
            let what = || format!("{n} submissions, {runners} threads, slow at {skip}/{yields}: {}; expected {wants:?}", vs(&res));
            c.obs(what());
            for (r, w) in res.iter().zip(&wants) {
                c.check(r.as_ref().is_some_and(|r| verdict_ok(r, w)), what);
            }
            let r = sys.verify_pow(barely(&chs[n]), "10.0.0.9".into()).await;
            c.check(r.is_ok(), || format!("{}; a later submission: {}", what(), short(&r)));
        })
    })
    .about(format!("1-3 submissions to 1-2 verification threads that do not get to run for {spins} rounds of polling, or for an hour, from each of 6 moments on"))
}
/// very many submissions in the life of one system: nothing adds up
fn crowd(n: usize) -> Scenario {
    Scenario::new(format!("crowd-{n}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let runners = 1 + pick(2);
            let together = 1 + pick(3);
            // left after so many polls; by turns
            let left = pick(6) as u32;
            let kinds: &[usize] = [&[0][..], &[1], &[2, 7], &[0, 1, 2, 7]][pick(4)];
            let same = pick(2) == 1;
            let sys = Arc::new(fresh_sys(&c, runners, 8).await);
            let what = |i: usize| format!("{together} at a time, {runners} threads, left after {left} polls, kinds {kinds:?}: submission {i}");
            let mut i = 0;
            while i < n {
                let mut chs = vec![];
                for _ in 0..together {
                    chs.push(issue(&c, &sys, "b", 0).await);
                }
                let mut works = vec![];
                let mut wants = vec![];
                for k in 0..together {
                    let (w, _) = submission(&chs[k].clone(), &chs, kinds[(i + k) % kinds.len()]);
                    wants.push(judge(&mut chs, &w, 0));
                    works.push((w, if same { "ip".into() } else { format!("10.0.{}.{}", i + k, k) }));
                }
                let polls = match left {
                    0 => None,
                    5 => Some(1 + (i / together) as u32 % 4),
                    l => Some(l),
                };
                let j = Join::new();
                for (k, (w, ip)) in works.into_iter().enumerate() {
                    let sys = sys.clone();
                    j.go(async move {
                        match polls {
                            Some(n) if k + 1 == together => {
                                let f: Pin<Box<dyn Future<Output = Verdict>>> = Box::pin(async move { sys.verify_pow(w, ip).await });
                                Abandon { f: Some(f), n: Cell::new(n) }.await
                            }
                            _ => Some(sys.verify_pow(w, ip).await),
                        }
                    });
                }
                for (k, (r, want)) in j.settle().await.into_iter().zip(&wants).enumerate() {
                    let ok = match &r {
                        None => false,
                        Some(None) => polls.is_some() && k + 1 == together,
                        Some(Some(r)) => verdict_ok(r, want),
                    };
                    c.check(ok, || format!("{}: {}; expected {want:?}", what(i + k), r.map_or("unanswered".into(), |r| r.map_or("left".into(), |r| short(&r)))));
                }
                i += together;
            }
            let ch = issue(&c, &sys, "b", 0).await;
            let r = sys.verify_pow(barely(&ch), "new".into()).await;
            c.check(r.is_ok(), || format!("{}: a good one in the end: {}", what(i), short(&r)));
            c.obs(what(i));
        })
    })
    .about(format!("{n} submissions, 1-3 at a time, to 1-2 verification threads, from one or many addresses: good, weak, inflated, no number or all by turns; every one, or the last one of those together, left by its submitter after 1-4 polls"))
    .steps(2_000 * n)
}
pub fn c03(t: Tier) -> Vec<Scenario> {
    let p = |n, runners, threads, bound| Par { n, runners, threads, bound };
    vec![
        all_answered(p(2, 1, false, t.or(1, 2)), false),
        all_answered(p(2, 2, false, t.or(1, 2)), false),
        all_answered(p(3, 2, false, t.or(1, 1)), false),
        all_answered(p(2, 1, true, t.or(2, 3)), false),
        all_answered(p(2, 2, true, t.or(1, 2)), false),
        all_answered(p(2, 1, false, t.or(1, 2)), true),
        all_answered(p(2, 2, false, t.or(1, 2)), true),
        crowded(2, 1, 1, true, t.or(2, 3)),
        crowded(3, 1, 1, true, t.or(2, 3)),
        crowded(2, 0, 1, false, t.or(2, 3)),
        stream(t.or(8, 20)),
        odd_challenges(3, t.or(1, 2)),
        crowd(t.or(600, 1500)),
        burst(t.or(BURSTS, MORE_BURSTS)),
        slow(t.or(3_000_000, 20_000_000)),
    ]
}

/// More requests at once than a mailbox holds, all the way from the challenge to the token.
pub fn burst(sizes: &'static [usize]) -> Scenario {
    Scenario::new(format!("burst-{}", sizes[sizes.len() - 1]), 0, move |c: Ctx| {
        exec::block_on(async move {
            let n = sizes[pick(sizes.len())];
            let runners = [1, 4][pick(2)];
            let same = pick(2) == 1;
            let kinds: &[usize] = [&[0][..], &[1], &[0, 1, 2, 7]][pick(3)];
            let sys = Arc::new(mk_system(Master::new(100_000).start(), HashCache::default().start(), runners, 5000));
            let cf = cfg(&[(4, 2), (20, 3), (100_000, 5)], 30);
            let _ = add(&sys.master, "b", &cf).await;
            let _ = add(&sys.master, "a", &cf).await;
            exec::idle().await;
            let what = format!("{n} at once, {runners} threads, kinds {kinds:?}");
            let j = Join::new();
            for _ in 0..n {
                let sys = sys.clone();
                j.go(async move { sys.get_pow("b".into()).await });
            }
            let mut m = MSite::new(&cf);
            let mut want: Vec<u32> = (0..n).map(|_| m.visit(0).1).collect();
            let mut chs = vec![];
            let mut strings = BTreeSet::new();
            for (i, r) in j.settle().await.into_iter().enumerate() {
                match r {
                    Some(Ok(Some(p))) => {
                        c.check(strings.insert(p.string.clone()), || format!("{what}: {} again", p.string));
                        chs.push(Ch { string: p.string, site: "b".into(), d: p.difficulty_factor, end: 30_000, used: false });
                    }
                    r => return c.fail(format!("{what}: request {i} for a challenge: {r:?}")),
                }
            }
            let mut got: Vec<u32> = chs.iter().map(|x| x.d).collect();
            want.sort();
            got.sort();
            c.check(got == want, || format!("{what}: difficulties {got:?}, expected {want:?}"));
            let v = views(&sys.master).await;
            c.check(v.as_ref().ok().map(|v| v["b"].count) == Some(n as u32), || format!("{what}: counted {v:?}"));
            let mut works = vec![];
            let mut wants = vec![];
            for i in 0..n {
                let (w, _) = submission(&chs[i].clone(), &chs, kinds[i % kinds.len()]);
                wants.push(judge(&mut chs, &w, 0));
                works.push(w);
            }
            let j = Join::new();
            for (i, w) in works.into_iter().enumerate() {
                let sys = sys.clone();
                let ip = if same { "ip".into() } else { format!("10.0.1.{i}") };
                j.go(async move { sys.verify_pow(w, ip).await });
            }
            let mut tokens = vec![];
            for (i, (r, want)) in j.settle().await.into_iter().zip(&wants).enumerate() {
                c.check(r.as_ref().is_some_and(|r| verdict_ok(r, want)), || format!("{what}: submission {i}: {r:?}, expected {want:?}"));
                if let Some(Ok((t, _))) = r {
                    tokens.push(t);
                }
            }
            for round in 0..2 {
                let j = Join::new();
                for t in tokens.clone() {
                    let sys = sys.clone();
                    j.go(async move { validate(&sys, &t, "b").await });
                }
                for (i, r) in j.settle().await.into_iter().enumerate() {
                    c.check(matches!(r, Some(Ok(x)) if x == (round == 0)), || format!("{what}: token {i}, round {round}: {r:?}"));
                }
            }
            c.obs(format!("{what} {same}"));
        })
    })
    .steps(100_000 * sizes[sizes.len() - 1])
    .about(format!("{sizes:?} challenges, submissions (good, weak, or of four kinds) and validations at once, more than a mailbox holds; 1 or 4 threads, one or many addresses"))
}
pub const BURSTS: &[usize] = &[5, 15, 16, 17, 18, 31, 32, 33, 34, 50, 64, 65, 100, 300];
pub const MORE_BURSTS: &[usize] = &[5, 15, 16, 17, 18, 31, 32, 33, 34, 50, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 600, 1025];

// ---- C17 -----------------------------------------------------------------------------
fn issue_seq(depth: usize) -> Scenario {
    Scenario::new(format!("issue-d{depth}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let clock = Clock::default();
            let sys = mk_system(Master::new(100_000).start(), HashCache::default().start(), 1, 5);
            let cfgs = [cfg(&[(1, 2), (2, 5)], 2), cfg(&[(0, 3), (1, 9)], 1)];
            let mut model: BTreeMap<&str, MSite> = BTreeMap::new();
            let r = add(&sys.master, "a", &cfgs[0]).await;
            c.check(r.is_ok(), || short(&r));
            model.insert("a", MSite::new(&cfgs[0]));
            let mut out: Vec<(String, u32, &str, u64)> = vec![]; // string, difficulty, site, end
            let mut hist = String::new();
            for _ in 0..depth {
                let now = clock.now();
                match pick(8) {
                    k @ 0..=2 => {
                        let id = ["a", "b", "zz"][k];
                        hist += &format!("challenge for {id}; ");
                        let want = model.get_mut(id).map(|m| m.visit(now));
                        let r = sys.get_pow(id.into()).await;
                        match (&r, want) {
                            (Ok(None), None) => {}
                            (Ok(Some(p)), Some((dur, d))) => {
                                c.check(p.difficulty_factor == d, || {
                                    format!("{hist}: difficulty {}, expected {d}", p.difficulty_factor)
                                });
                                c.check(p.salt == SALT, || format!("{hist}: salt {:?}", p.salt));
                                c.check(out.iter().all(|o| o.0 != p.string), || {
                                    format!("{hist}: string {:?}", p.string)
                                });
                                out.push((p.string.clone(), d, id, now + dur * 1000));
                            }
                            _ => c.fail(format!("{hist}: {}, expected {want:?}", short(&r))),
                        }
                    }
                    k @ (3 | 4) => {
                        // registers b, or a anew with other levels
                        let id = ["b", "a"][k - 3];
                        hist += &format!("add {id}; ");
                        let r = add(&sys.master, id, &cfgs[1]).await;
                        c.check(r.is_ok(), || format!("{hist}: {}", short(&r)));
                        model.insert(id, MSite::new(&cfgs[1]));
                    }
                    5 => {
                        hist += "remove a; ";
                        let r = remove(&sys.master, "a").await;
                        c.check(r.is_ok(), || format!("{hist}: {}", short(&r)));
                        model.remove("a");
                    }
                    6 => {
                        hist += "rename a to b; ";
                        let r = rename(&sys.master, "a", "b").await;
                        c.check(r.is_ok(), || format!("{hist}: {}", short(&r)));
                        if let Some(m) = model.remove("a") {
                            model.insert("b", m);
                        }
                    }
                    _ => {
                        hist += "0.6 s; ";
                        clock.pass(600).await;
                    }
                }
                exec::idle().await;
                match views(&sys.master).await {
                    Err(e) => c.fail(format!("{hist}: snapshot: {e:?}")),
                    Ok(v) => {
                        let now = clock.now();
                        let want: BTreeMap<String, View> = model
                            .iter_mut()
                            .map(|(k, m)| {
                                m.expire(now);
                                (k.to_string(), m.view())
                            })
                            .collect();
                        c.check(v == want, || format!("{hist}: sites {v:?}, expected {want:?}"));
                    }
                }
            }
            for (string, d, id, end) in &out {
                let ch = Ch {
                    string: string.clone(),
                    d: *d,
                    site: if *id == "a" { "a" } else { "b" },
                    end: *end,
                    used: false,
                };
                let mut l = [ch.clone()];
                // work that is just good enough, or just not
                let w = if out.len() % 2 == 1 { barely(&ch) } else { weak(&ch) };
                let want = judge(&mut l, &w, clock.now());
                let r = sys.verify_pow(w, "ip".into()).await;
                c.check(verdict_ok(&r, &want), || format!("{hist} work for the challenge of {id} (d={d}): {}, expected {want:?}", short(&r)));
            }
            c.obs(hist);
        })
    })
    .about(format!("all sequences of {depth} of: challenge for a known, perhaps known or unknown site, add b, replace a, remove a, rename a to b, 0.6 s; finally work for every challenge handed out"))
    .shard(2)
}
fn many_strings(n: usize) -> Scenario {
    Scenario::new(format!("strings-{n}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let sys = mk_system(Master::new(100_000).start(), HashCache::default().start(), 1, 5);
            let d = [1u64, 3600][pick(2)];
            let _ = add(&sys.master, "a", &cfg(&[(10_000, 2)], d)).await;
            let mut seen = BTreeSet::new();
            for i in 0..n {
                if let Ok(Some(p)) = sys.get_pow("a".into()).await {
                    c.check(seen.insert(p.string.clone()), || format!("string {i} was handed out before: {}", p.string));
                } else {
                    c.fail("no challenge");
                }
                if i == n / 2 {
                    exec::pass_ms(5000, 1000).await;
                }
            }
        })
    })
    .steps(1000 * n)
    .about(format!("{n} challenges in a row, also across their expiry"))
}
/// the strings of challenges, without the rest of the system
fn fresh_strings(n: usize) -> Scenario {
    Scenario::new(format!("fresh-strings-{n}"), 0, move |c: Ctx| {
        let mut seen = std::collections::HashSet::new();
        let salt = [String::new(), SALT.into()][pick(2)].clone();
        for i in 0..n {
            let p = PoWConfig::new(i as u32, salt.clone());
            c.check(p.salt == salt && p.difficulty_factor == i as u32, || format!("challenge {i} is {p:?}"));
            c.check(seen.insert(p.string), || format!("string {i} is not fresh"));
            if c.failed() {
                return;
            }
        }
        c.obs(format!("{n}"));
    })
    .about(format!("{n} strings in a row"))
}
/// `n` strings and tokens, one per line
pub fn print_strings(n: usize) {
    for _ in 0..n {
        println!("{}", PoWConfig::new(1, SALT.into()).string);
        println!("{}", some_token());
    }
}
fn some_token() -> String {
    cm::CacheResult::from(cm::CachedPoWConfig { key: "a".into(), difficulty_factor: 1, duration: 1 }).token
}
/// Strings and tokens on several threads and in several processes.
fn strings_elsewhere(threads: usize, processes: usize, n: usize) -> Scenario {
    Scenario::new(format!("strings-{threads}-threads-{processes}-processes"), 0, move |c: Ctx| {
        let mut seen = BTreeMap::new();
        let mut all = vec![];
        let mine = move || {
            let mut v = vec![];
            for _ in 0..n {
                v.push(PoWConfig::new(1, SALT.into()).string);
                v.push(some_token());
            }
            v
        };
        all.push(("this thread".to_string(), mine()));
        for i in 0..threads {
            let mine = mine.clone();
            all.push((format!("thread {i}"), std::thread::spawn(mine).join().unwrap_or_default()));
        }
        for i in 0..processes {
            let exe = std::env::current_exe().unwrap();
            let o = std::process::Command::new(exe).arg("strings").arg(n.to_string()).output();
            let text = o.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
            all.push((format!("process {i}"), text.lines().map(|s| s.to_string()).collect()));
        }
        for (who, v) in &all {
            c.check(v.len() == 2 * n, || format!("{who} makes {} strings", v.len()));
            for s in v {
                if let Some(other) = seen.insert(s.clone(), who.clone()) {
                    return c.fail(format!("{s:?} is made by {other} and by {who}"));
                }
            }
        }
        c.obs(format!("{}", seen.len()));
    })
    .about(format!("{n} challenge strings and {n} tokens by each of {threads} threads and {processes} processes: all different"))
}
fn known_names() -> Scenario {
    Scenario::new("known-names", 0, move |c: Ctx| {
        exec::block_on(async move {
            let (x, y) = pick_names();
            let sys = mk_system(Master::new(100_000).start(), HashCache::default().start(), 1, 5);
            let cf = cfg(&[(1, 2), (2, 5)], 2);
            let _ = add(&sys.master, &x, &cf).await;
            let mut m = MSite::new(&cf);
            for i in 0..2 {
                let r = sys.get_pow(y.clone()).await;
                c.check(matches!(r, Ok(None)), || format!("only {x:?} is known, a challenge for {y:?}: {}", short(&r)));
                let (_, d) = m.visit(0);
                let r = sys.get_pow(x.clone()).await;
                c.check(matches!(&r, Ok(Some(p)) if p.difficulty_factor == d), || format!("challenge {i} for {x:?}: {}", short(&r)));
            }
            let v = views(&sys.master).await;
            let want: BTreeMap<String, View> = [(x.clone(), m.view())].into();
            c.check(v.as_ref().ok() == Some(&want), || format!("{x:?} and requests for {y:?}: {v:?}"));
            c.obs(format!("{x} {y}"));
        })
    })
    .about(format!("{}: one known, the other not", pairs()))
    .shard(1)
}
/// Salts of many lengths, difficulties around the powers of two: what is handed out is what
/// is configured, and what is remembered of it.
fn whole_challenge() -> Scenario {
    Scenario::new("salts-and-difficulties", 0, move |c: Ctx| {
        exec::block_on(async move {
            let mut salts: Vec<String> = (1..=12u32)
                .flat_map(|e| [(1usize << e) - 1, 1 << e, (1 << e) + 1])
                .chain([10, 50, 99, 100, 101, 200, 300, 1000, 1001, 20_000])
                .map(|n| (0..n).map(|i| char::from(b'!' + (i * 31 % 90) as u8)).collect())
                .collect();
            let odd = [" ", "  a  ", "\0", "a\0b", "a\nb", "\u{e9}", "e\u{301}", "\u{1f600}", "\"", "\\", "{}", "%s", "\u{feff}a"];
            salts.extend(odd.iter().map(|s| s.to_string()));
            salts.extend([255usize, 256, 257, 1000].map(|n| "\u{e9}".repeat(n)));
            let mut ds: Vec<u32> = vec![u32::MAX, u32::MAX - 1, 10, 99, 100, 101, 999, 1000, 1001, 50_000, 1_000_000, 1_000_000_000];
            for k in 1..32u32 {
                ds.extend([(1u32 << k) - 1, 1 << k, (1 << k) + 1]);
            }
            ds.sort();
            ds.dedup();
            let i = pick(salts.len() + ds.len());
            let (salt, d) = if i < salts.len() { (salts[i].clone(), 77) } else { (SALT.to_string(), ds[i - salts.len()]) };
            let cache = HashCache::default().start();
            let sys = SystemBuilder::default()
                .master(Master::new(100_000).start())
                .cache(cache.clone())
                .pow(pow_config(&salt))
                .runners(1)
                .queue_length(5)
                .build();
            // (one more visitor makes it harder)
            let cf = if d < u32::MAX { cfg(&[(1, d), (2, d + 1)], 5) } else { cfg(&[(1, d)], 5) };
            let r = add(&sys.master, "a", &cf).await;
            c.check(r.is_ok(), || short(&r));
            let what = format!("a salt of {} characters, difficulty {d}", salt.chars().count());
            for round in 0..3 {
                let ch = match sys.get_pow("a".into()).await {
                    Ok(Some(p)) => p,
                    r => return c.fail(format!("{what}: {}", short(&r))),
                };
                let now = if round > 0 && cf.levels.len() > 1 { cf.levels[1].1 } else { d };
                c.check(ch.salt == salt && ch.difficulty_factor == now, || {
                    format!("{what}: a challenge with a salt of {} characters (the same: {}) and difficulty {} instead of {now}", ch.salt.chars().count(), ch.salt == salt, ch.difficulty_factor)
                });
                let r = ask(&cache, cm::RetrivePoW(cm::VerifyCaptchaResult { key: "a".into(), token: ch.string.clone() })).await;
                let ok = matches!(&r, Ok(Some(x)) if x.key == "a" && x.difficulty_factor == now && x.duration == 5);
                c.check(ok, || format!("{what}: remembered as {}", short(&r)));
            }
            c.obs(what);
        })
    })
    .about("salts of 1-20 000 characters (around every power of two, special and multi-byte ones) and difficulties around every power of two up to 2^32-1: the challenge and what is remembered of it")
}
fn issue_race(n: usize, threads: bool, bound: u32) -> Scenario {
    Scenario::new(format!("issue-race-{n}{}-b{bound}", if threads { "-2exec" } else { "" }), bound, move |c: Ctx| {
        exec::block_on(async move {
            let sys = Arc::new(mk_system(Master::new(100_000).start(), HashCache::default().start(), 1, 5));
            let cf = cfg(&[(1, 2), (2, 5), (9, 6)], 5);
            let _ = add(&sys.master, "a", &cf).await;
            let what = pick(4); // a site change going on at the same time
            let mut model = MSite::new(&cf);
            exec::idle().await;
            exec::explore_tasks(true);
            let j = Join::new();
            let mut elsewhere = None;
            for i in 0..n {
                let sys = sys.clone();
                if threads && i == 0 {
                    let (tx, rx) = tokio::sync::oneshot::channel();
                    let h = std::thread::spawn(move || {
                        exec::block_on(async move {
                            let r = sys.get_pow("a".into()).await;
                            drop(sys);
                            let _ = tx.send(r);
                        })
                    });
                    elsewhere = Some((h, rx));
                    continue;
                }
                j.go(async move { sys.get_pow("a".into()).await });
            }
            let m = sys.master.clone();
            let k = Join::new();
            match what {
                1 => k.go(async move { remove(&m, "a").await }),
                2 => k.go(async move { rename(&m, "a", "b").await }),
                3 => k.go(async move { add(&m, "a", &cfg(&[(3, 11)], 5)).await }),
                _ => drop(m),
            }
            let mut res: Vec<Option<CaptchaResult<Option<PoWConfig>>>> = vec![];
            if let Some((h, rx)) = elsewhere {
                res.push(rx.await.ok());
                exec::idle().await;
                let _ = h.join();
            }
            res.extend(j.settle().await);
            let kr = k.settle().await;
            exec::explore_tasks(false);
            c.check(kr.iter().all(|r| matches!(r, Some(Ok(())))), || format!("the site change: {kr:?}"));
            let text: Vec<String> = res
                .iter()
                .map(|r| match r {
                    Some(Ok(Some(p))) => p.difficulty_factor.to_string(),
                    Some(Ok(None)) => "none".into(),
                    r => format!("{r:?}"),
                })
                .collect();
            c.obs(format!("change {what}: {text:?}"));
            let mut got: Vec<u32> = vec![];
            for r in &res {
                match r {
                    Some(Ok(Some(p))) => got.push(p.difficulty_factor),
                    Some(Ok(None)) if what == 1 || what == 2 => {}
                    r => c.fail(format!("a request for a challenge: {r:?} (change {what})")),
                }
            }
            if what == 0 {
                let mut want: Vec<u32> = (0..n).map(|_| model.visit(0).1).collect();
                want.sort();
                let mut g = got.clone();
                g.sort();
                c.check(g == want, || format!("difficulties {got:?}, expected {want:?}"));
                let v = views(&sys.master).await;
                let count = v.as_ref().ok().and_then(|v| v.get("a")).map(|v| v.count);
                c.check(count == Some(n as u32), || format!("{n} challenges, but {count:?} visitors"));
            }
            let mut strings = BTreeSet::new();
            for r in res.into_iter().flatten() {
                let Ok(Some(p)) = r else { continue };
                c.check(strings.insert(p.string.clone()), || "the same string twice".into());
                let r = sys.verify_pow(good_work(&p.string, p.difficulty_factor, "a"), "ip".into()).await;
                c.check(r.as_ref().ok().map(|x| x.1) == Some(p.difficulty_factor), || {
                    format!("work for a challenge handed out (change {what}): {}", short(&r))
                });
            }
            drop(Rc::new(sys));
        })
    })
    .about(format!("{n} concurrent challenge requests for one site, alone or with a removal, renaming or replacement of it{}; every interleaving up to {bound} deviations", if threads { ", two executor threads" } else { "" }))
}
pub fn c17(t: Tier) -> Vec<Scenario> {
    vec![
        issue_seq(t.or(5, 6)),
        many_strings(t.or(2000, 10_000)),
        fresh_strings(t.or(100_000, 500_000)),
        burst(t.or(BURSTS, MORE_BURSTS)),
        strings_elsewhere(4, 3, t.or(300, 3000)),
        known_names(),
        whole_challenge(),
        whole_lives(),
        super::faults::unknown_site(),
        issue_race(2, false, t.or(3, 4)),
        issue_race(3, false, t.or(2, 3)),
        issue_race(2, true, t.or(2, 3)),
    ]
}
