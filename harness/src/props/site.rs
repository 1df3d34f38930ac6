//! C07, C08, C22: the site object, its builders and its serialised forms.
use super::common::*;
use actix::prelude::*;
use libmcaptcha::cache::AddChallenge;
use libmcaptcha::defense::{Defense, Level};
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::master::embedded::master::Master;
use libmcaptcha::master::messages as mm;
use libmcaptcha::master::AddVisitorResult;
use libmcaptcha::{CreateMCaptcha, DefenseBuilder, LevelBuilder, MCaptcha, MCaptchaBuilder};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{HashMap, HashSet, VecDeque};

// ---- configurations --------------------------------------------------------------------
/// Chooses a configuration: up to `max` levels, thresholds out of `ts` (ascending) and
/// difficulties out of `ds`.
fn pick_cfg(max: usize, ts: &[u32], ds: &[u32], duration: u64) -> Cfg {
    let n = 1 + pick(max);
    let mut levels = vec![];
    let (mut t0, mut d0) = (0, 0);
    for left in (0..n).rev() {
        let t = t0 + pick(ts.len() - t0 - left);
        let d = d0 + pick(ds.len() - d0);
        levels.push((ts[t], ds[d]));
        (t0, d0) = (t + 1, d);
    }
    Cfg { levels, duration }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct St {
    count: u32,
    level: usize,
}
impl St {
    fn view(&self, cf: &Cfg) -> View {
        View {
            levels: cf.levels.clone(),
            duration: cf.duration,
            count: self.count,
            difficulty: cf.levels[self.level].1,
            threshold: cf.levels[self.level].0,
        }
    }
}

/// Breadth-first search of the states of one site object.
fn site_states(name: &str, max: usize, ts: &'static [u32], ds: &'static [u32]) -> Scenario {
    Scenario::new(name, 0, move |c: Ctx| {
        let cf = pick_cfg(max, ts, ds, 30);
        let top = cf.levels.last().unwrap().0 + 3;
        let m0 = cf.build();
        let s0 = St { count: 0, level: 0 };
        c.check(view(&m0) == s0.view(&cf), || format!("{cf:?}: a new site is {:?}", view(&m0)));
        // the state of the real object is its serialised form, beside that of the model
        let mut seen = HashSet::new();
        let mut q = VecDeque::new();
        q.push_back((m0, s0, vec![]));
        while let Some((m, s, path)) = q.pop_front() {
            if !seen.insert((format!("{m:?}"), s.clone())) {
                continue;
            }
            for op in 0..8 {
                let (mut m, mut s, mut path): (MCaptcha, St, Vec<u32>) = (m.clone(), s.clone(), path.clone());
                if op == 0 {
                    m.add_visitor();
                    s.count += 1;
                    s.level = step_level(&cf.levels, s.level, s.count);
                } else {
                    let by = [0, 1, 2, 3, 5, 1000, u32::MAX][op - 1];
                    m.decrement_visitor_by(by);
                    s.count = s.count.saturating_sub(by);
                }
                path.push(op as u32);
                c.state(hash(&(&cf, &s)));
                c.check(view(&m) == s.view(&cf), || {
                    format!("levels {:?}, after {path:?} (0: visit, else a decrement): {:?}, expected {:?}", cf.levels, view(&m), s.view(&cf))
                });
                c.check(m.get_difficulty() == m.get_defense().get_difficulty(), || "two difficulties".into());
                let r = AddVisitorResult::new(&m);
                c.check((r.duration, r.difficulty_factor) == (cf.duration, m.get_difficulty()), || format!("{r:?}"));
                if c.failed() {
                    return;
                }
                if s.count <= top {
                    q.push_back((m, s, path));
                }
            }
        }
        c.obs(format!("{:?}: {} states", cf.levels, seen.len()));
    })
    .shard(2)
    .about(format!("breadth-first search of all states of the site object for every configuration of 1-{max} levels with thresholds {ts:?} and difficulties {ds:?} under visits and decrements by 0, 1, 2, 3, 5, 1000, 2^32-1, counts up to 3 above the highest threshold"))
}
/// Breadth-first search of the defense alone.
fn defense_states() -> Scenario {
    Scenario::new("defense", 0, move |c: Ctx| {
        let cf = pick_cfg(4, &[0, 1, 4, u32::MAX], &[1, 2, u32::MAX], 1);
        let n = cf.levels.len();
        let d0: Defense = cf.build().get_defense();
        let mut seen = HashSet::new();
        let mut q = VecDeque::new();
        q.push_back((d0, 0usize, vec![]));
        while let Some((d, l, path)) = q.pop_front() {
            let what = || format!("{:?} after {path:?}", cf.levels);
            c.check(d.get_difficulty() == cf.levels[l].1, || format!("{}: difficulty {}", what(), d.get_difficulty()));
            c.check(d.visitor_threshold() == cf.levels[l].0, || format!("{}: threshold {}", what(), d.visitor_threshold()));
            let cur = d.current_level();
            c.check((cur.visitor_threshold, cur.difficulty_factor) == cf.levels[l], || format!("{}: {cur:?}", what()));
            if c.failed() || !seen.insert((format!("{d:?}"), l)) {
                continue;
            }
            for op in ["tighten", "loosen", "max", "min"] {
                let mut d = d.clone();
                let l = match op {
                    "tighten" => {
                        d.tighten_up();
                        (l + 1).min(n - 1)
                    }
                    "loosen" => {
                        d.loosen_up();
                        l.saturating_sub(1)
                    }
                    "max" => {
                        d.max_defense();
                        n - 1
                    }
                    _ => {
                        d.min_defense();
                        0
                    }
                };
                c.state(hash(&(&cf.levels, l)));
                let mut path = path.clone();
                path.push(op);
                q.push_back((d, l, path));
            }
        }
        c.check(seen.len() == n, || format!("{:?}: {} states", cf.levels, seen.len()));
        c.obs(format!("{:?}", cf.levels));
    })
    .about("all states of every defense of 1-4 levels under tighten, loosen, maximum, minimum")
}
/// A registered site: the difficulties visitors get, with visits that end by themselves.
fn actor_levels(depth: usize) -> Scenario {
    Scenario::new(format!("visits-d{depth}"), 0, move |c: Ctx| {
        exec::block_on(async move {
            let cf = [
                cfg(&[(0, 2), (1, 3), (2, 5)], 1),
                cfg(&[(1, 2), (3, 4)], 1),
                cfg(&[(2, 4), (3, 4), (5, 9)], 2),
                cfg(&[(1, 1)], 2),
            ][pick(4)]
            .clone();
            let clock = Clock::default();
            let master = Master::new(100_000).start();
            let r = add(&master, "a", &cf).await;
            c.check(r.is_ok(), || short(&r));
            let mut m = MSite::new(&cf);
            let mut hist = format!("{cf:?}: ");
            for _ in 0..depth {
                let n = [1, 3, 0][pick(3)];
                if n == 0 {
                    hist += "0.6 s; ";
                    clock.pass(600).await;
                } else {
                    hist += &format!("{n} visits; ");
                }
                for _ in 0..n {
                    let want = m.visit(clock.now());
                    let r = visit(&master, "a").await;
                    c.check(r == Ok(Some(want)), || format!("{hist}: {}, expected {want:?}", short(&r)));
                }
                exec::idle().await;
                m.expire(clock.now());
                let v = views(&master).await;
                c.check(v.as_ref().ok().and_then(|v| v.get("a")) == Some(&m.view()), || {
                    format!("{hist}: {v:?}, expected {:?}", m.view())
                });
                c.state(hash(&(&cf, m.count(), m.level)));
            }
            c.obs(hist);
        })
    })
    .shard(3)
    .about(format!("all sequences of {depth} of: 1 visit, 3 visits, 0.6 s, for 4 configurations of a registered site"))
}
/// Constant load near a threshold: the level settles.
fn steady() -> Scenario {
    Scenario::new("steady-load", 0, move |c: Ctx| {
        let cf = pick_cfg(4, &[0, 2, 4, 5, 9], &[1, 2, 3, 4], 30);
        let load = pick(13) as u32;
        let mut m = cf.build();
        let mut last = vec![];
        for _ in 0..load {
            m.add_visitor();
        }
        // one visit leaves for every one that comes
        for _ in 0..40 {
            m.decrement_visitor_by(1);
            m.add_visitor();
            last.push(m.get_difficulty());
        }
        let tail = &last[20..];
        c.check(load == 0 || tail.iter().all(|d| d == &tail[0]), || {
            format!("levels {:?}, constant load of {load}: difficulties {last:?}", cf.levels)
        });
        c.obs(format!("{:?} {load} {}", cf.levels, tail[0]));
    })
    .about("every configuration of 1-4 levels under every constant load: the difficulty settles")
}
/// A long ladder of levels, climbed and descended.
fn ladder(max: usize, more: &'static [usize]) -> Scenario {
    Scenario::new(format!("ladder-{max}"), 0, move |c: Ctx| {
        let n = sizes(max, more);
        let step = [1u32, 2, 3][pick(3)];
        let levels: Vec<(u32, u32)> = (0..n as u32).map(|i| (i * step, 1 + i * 7)).collect();
        let cf = Cfg { levels, duration: 30 };
        let mut m = cf.build();
        let mut s = St { count: 0, level: 0 };
        let see = |m: &MCaptcha, s: &St, what: &str| {
            c.state(hash(&(n, step, s)));
            c.check(view(m) == s.view(&cf), || {
                format!("{n} levels of {step} visitors each, {what} at {s:?}: {:?}", view(m))
            });
        };
        let visit = |m: &mut MCaptcha, s: &mut St| {
            m.add_visitor();
            s.count += 1;
            s.level = step_level(&cf.levels, s.level, s.count);
        };
        // to the top, down again with a visit for every two that leave, then up once more
        for _ in 0..n as u32 * step + 3 {
            visit(&mut m, &mut s);
            see(&m, &s, "climbing");
        }
        while s.count > 1 {
            m.decrement_visitor_by(2);
            s.count -= 2;
            see(&m, &s, "after two have left");
            visit(&mut m, &mut s);
            see(&m, &s, "descending");
        }
        for _ in 0..n as u32 * step + 3 {
            visit(&mut m, &mut s);
            see(&m, &s, "climbing again");
        }
        // all leave at once; the level follows visit by visit
        m.decrement_visitor_by(u32::MAX);
        s.count = 0;
        for _ in 0..n + 2 {
            m.decrement_visitor_by(1);
            s.count = s.count.saturating_sub(1);
            visit(&mut m, &mut s);
            see(&m, &s, "falling");
        }
        c.obs(format!("{n} {step}"));
    })
    .about(format!("ladders of 1-{max} and {more:?} levels of 1-3 visitors each, climbed, descended, climbed again and left"))
}
/// Counts far beyond those of a test: the level follows at every one of them.
fn far(top: u32) -> Scenario {
    Scenario::new(format!("far-{top}"), 0, move |c: Ctx| {
        let at = [255u32, 256, 65_535, 65_536, 1 << 24, (1 << 24) + 1][pick(6)];
        if at > top {
            return;
        }
        let cf = cfg(&[(at - 1, 2), (at, 3), (at + 1, 5), (at + 3, 9)], 30);
        let mut m = cf.build();
        let mut s = St { count: 0, level: 0 };
        for n in 0..at + 6 {
            m.add_visitor();
            s.count += 1;
            s.level = step_level(&cf.levels, s.level, s.count);
            if !c.check(m.get_visitors() == s.count && m.get_difficulty() == cf.levels[s.level].1, || {
                format!("{:?} after {} visits: {} counted, difficulty {}", cf.levels, n + 1, m.get_visitors(), m.get_difficulty())
            }) {
                return;
            }
        }
        for by in [1, 1, 2, 1, 1] {
            m.decrement_visitor_by(by + 1);
            s.count -= by + 1;
            m.add_visitor();
            s.count += 1;
            s.level = step_level(&cf.levels, s.level, s.count);
            c.check(view(&m) == s.view(&cf), || format!("{s:?}: {:?}", view(&m)));
        }
        c.obs(format!("{at}"));
    })
    .about(format!("sites whose levels are around 2^8, 2^16 and 2^24 visitors, climbed visit by visit (up to {top})"))
}
/// The site with another number of visitors (None: it is not kept as a field of its own)
fn with_count(m: &MCaptcha, n: u32) -> Option<MCaptcha> {
    const FROM: u32 = 1_234_567_891;
    let at = |m: &MCaptcha, from: u32, n: u32| {
        let mut v = serde_json::to_value(m).unwrap();
        let o = v.as_object_mut()?;
        let fields: Vec<String> = o.iter().filter(|(_, v)| v.as_u64() == Some(from as u64)).map(|(k, _)| k.clone()).collect();
        let [f] = &fields[..] else { return None };
        o.insert(f.clone(), n.into());
        serde_json::from_value::<MCaptcha>(v).ok()
    };
    let mut x = m.clone();
    if x.get_visitors() > 100 {
        return at(&x, x.get_visitors(), FROM).and_then(|y| at(&y, FROM, n));
    }
    // (a number that nothing else has)
    x.decrement_visitor_by(u32::MAX);
    at(&x, 0, FROM).and_then(|y| at(&y, FROM, n))
}
/// The decision at any threshold and any count.
fn any_threshold() -> Scenario {
    Scenario::new("any-threshold", 0, move |c: Ctx| {
        let mut ts: Vec<u32> = vec![100, 999, 1000, 1001, 50_000, 1_000_000, 1_000_000_000, u32::MAX - 10];
        for k in 2..32u32 {
            ts.extend([(1u32 << k) - 1, 1 << k, (1 << k) + 1]);
        }
        let t = ts[pick(ts.len())];
        let us: Vec<u32> = [t + 1, t + 2, t.saturating_mul(2), u32::MAX - 5, u32::MAX].into_iter().filter(|u| *u > t).collect();
        let u = us[pick(us.len())];
        let mut levels = vec![(t, 3), (u, 7)];
        if u < u32::MAX {
            levels.push((u32::MAX, 1_000_000));
        }
        let cf = Cfg { levels: levels.clone(), duration: 30 };
        let start = pick(levels.len());
        let mut m = cf.build();
        for i in 0..start {
            // up one level by one visit above the threshold
            let Some(mut x) = with_count(&m, levels[i].0) else {
                return c.obs("the count cannot be set");
            };
            x.add_visitor();
            m = x;
        }
        if !c.check(m.get_difficulty() == levels[start].1, || format!("{levels:?}: {start} visits, each one above the next threshold: {:?}", view(&m))) {
            return;
        }
        let mut ns = vec![0, 1, 2, t / 2, u / 2, u32::MAX / 2, u32::MAX / 2 + 1, u32::MAX - 1, u32::MAX - 2];
        for x in [t, u] {
            for d in 0..5u32 {
                ns.push(x.saturating_add(d).saturating_sub(2).min(u32::MAX - 1));
            }
        }
        for n in ns {
            let Some(mut x) = with_count(&m, n) else { return };
            x.add_visitor();
            let s = St { count: n + 1, level: step_level(&levels, start, n + 1) };
            c.state(hash(&(&levels, &s)));
            c.check(view(&x) == s.view(&cf), || format!("levels {levels:?}, level {start}, {n} visitors and one more: {:?}, expected {:?}", view(&x), s.view(&cf)));
            for by in [1, n, n + 1] {
                let mut y = x.clone();
                y.decrement_visitor_by(by);
                c.check(y.get_visitors() == n + 1 - by, || format!("{} visitors, {by} leave: {}", n + 1, y.get_visitors()));
            }
        }
        c.obs(format!("{levels:?} {start}"));
    })
    .about("two or three levels with thresholds around every power of two up to 2^32-1, from each level, with counts around these thresholds and at the ends of the range: a visit, and visitors leaving")
}
fn sizes(max: usize, more: &[usize]) -> usize {
    match pick(max + more.len()) {
        i if i < max => 1 + i,
        i => more[i - max],
    }
}
/// The defense with many levels.
fn tall_defense(max: usize, more: &'static [usize]) -> Scenario {
    Scenario::new(format!("tall-defense-{max}"), 0, move |c: Ctx| {
        let n = sizes(max, more);
        let levels: Vec<(u32, u32)> = (0..n as u32).map(|i| (i * 3, 1 + i / 2)).collect();
        let d0 = Cfg { levels: levels.clone(), duration: 1 }.build().get_defense();
        // every level is reached by tightening; from each one every operation
        let mut d = d0;
        for at in 0..n {
            for op in 0..5 {
                let mut x = d.clone();
                let want = match op {
                    0 => at,
                    1 => {
                        x.tighten_up();
                        (at + 1).min(n - 1)
                    }
                    2 => {
                        x.loosen_up();
                        at.saturating_sub(1)
                    }
                    3 => {
                        x.max_defense();
                        n - 1
                    }
                    _ => {
                        x.min_defense();
                        0
                    }
                };
                let l = x.current_level();
                c.state(hash(&(n, want)));
                c.check(
                    (l.visitor_threshold, l.difficulty_factor) == levels[want]
                        && (x.visitor_threshold(), x.get_difficulty()) == levels[want],
                    || format!("{n} levels, operation {op} (none, tighten, loosen, max, min) at level {at}: {l:?}, expected {:?}", levels[want]),
                );
            }
            d.tighten_up();
        }
        c.obs(format!("{n}"));
    })
    .about(format!("defenses of 1-{max} and {more:?} levels: every operation at every level"))
}
pub fn c07(t: Tier) -> Vec<Scenario> {
    vec![
        ladder(t.or(40, 300), t.or(&[130, 260], &[520, 1030])),
        far(1 << 25),
        any_threshold(),
        tall_defense(t.or(70, 300), t.or(&[128, 129, 255, 256, 257, 300], &[511, 512, 513, 1030])),
        site_states("site", 4, &[0, 1, 2, 4, 5], &[1, 2, 3, 3]),
        site_states("site-wide", 4, t.or(&[0, 1, 3, 10, 17, 30], &[0, 1, 3, 7, 10, 11, 17, 30, 64]), &[1, 7, 500, u32::MAX]),
        defense_states(),
        actor_levels(t.or(8, 10)),
        steady(),
    ]
}

// ---- C08 -----------------------------------------------------------------------------
const LT: [u32; 4] = [0, 1, 2, u32::MAX];
const LD: [u32; 4] = [0, 1, 7, u32::MAX];

fn defenses(max: usize) -> Scenario {
    Scenario::new(format!("defenses-{max}"), 0, move |c: Ctx| {
        let first = pick(17);
        let second = pick(17);
        // (0: no level, else the number of the level + 1)
        let mut n = 0u64;
        let prefix: Vec<usize> = match (first, second) {
            (0, 0) => vec![],
            (0, _) => return,
            (f, 0) => vec![f - 1],
            (f, s) => vec![f - 1, s - 1],
        };
        let mut seqs = vec![prefix.clone()];
        let mut at = 0;
        while at < seqs.len() {
            let s = seqs[at].clone();
            at += 1;
            if s.len() >= 2 && s.len() < max {
                for l in 0..16 {
                    let mut s = s.clone();
                    s.push(l);
                    seqs.push(s);
                }
            }
            let levels: Vec<(u32, u32)> = s.iter().map(|l| (LT[l / 4], LD[l % 4])).collect();
            n += 1;
            one_defense(&c, &levels);
            if c.failed() {
                return;
            }
        }
        c.obs(format!("{prefix:?}: {n} sequences"));
    })
    .shard(2)
    .about(format!("all sequences of 0-{max} levels with thresholds {LT:?} and difficulties {LD:?}"))
}
fn one_defense(c: &Ctx, levels: &[(u32, u32)]) {
    let mut problems = vec![];
    if levels.is_empty() {
        problems.push(CaptchaError::LevelEmpty);
    }
    if levels.iter().any(|l| l.1 == 0) {
        problems.push(CaptchaError::DifficultyFactorZero);
    }
    let mut sorted = levels.to_vec();
    sorted.sort_by_key(|l| l.0);
    if sorted.windows(2).any(|w| w[0].0 == w[1].0) {
        problems.push(CaptchaError::DuplicateVisitorCount);
    }
    if sorted.iter().any(|a| sorted.iter().any(|b| a.0 < b.0 && a.1 > b.1)) {
        problems.push(CaptchaError::DecreaseingDifficultyFactor);
    }
    let r = std::panic::catch_unwind(|| {
        let mut b = DefenseBuilder::default();
        for &(t, d) in levels {
            b.add_level(Level {
                visitor_threshold: t,
                difficulty_factor: d,
            })?;
        }
        let first = b.build();
        let again = b.build();
        Ok((first, again))
    });
    let r = match r {
        Err(_) => {
            c.fail(format!("{levels:?}: the builder panics"));
            return;
        }
        Ok(Err(e)) => Err(e),
        Ok(Ok((a, b))) => {
            c.check(a == b, || format!("{levels:?}: building twice gives {a:?} and {b:?}"));
            a
        }
    };
    match r {
        Err(e) => {
            c.check(problems.contains(&e), || format!("{levels:?}: {e:?}, its problems are {problems:?}"));
        }
        Ok(d) => {
            c.check(problems.is_empty(), || format!("{levels:?} builds, its problems are {problems:?}"));
            if !problems.is_empty() {
                return;
            }
            c.check((d.visitor_threshold(), d.get_difficulty()) == sorted[0], || {
                format!("{levels:?}: starts at {:?}", d.current_level())
            });
            let v: Vec<(u32, u32)> = Vec::<Level>::from(d.clone())
                .iter()
                .map(|l| (l.visitor_threshold, l.difficulty_factor))
                .collect();
            c.check(v == sorted, || format!("{levels:?}: has the levels {v:?}"));
            let m = MCaptchaBuilder::default().defense(d).duration(7).build();
            match m {
                Err(e) => c.fail(format!("{levels:?}: no site can be built: {e:?}")),
                Ok(m) => {
                    let want = View {
                        levels: sorted.clone(),
                        duration: 7,
                        count: 0,
                        difficulty: sorted[0].1,
                        threshold: sorted[0].0,
                    };
                    c.check(view(&m) == want, || format!("{levels:?}: the site is {:?}", view(&m)));
                }
            }
        }
    }
}
fn level_builders() -> Scenario {
    Scenario::new("level-builder", 0, move |c: Ctx| {
        // up to 3 setter calls, in any order
        let mut b = LevelBuilder::default();
        let (mut t, mut d) = (None, None);
        let mut hist = vec![];
        for _ in 0..3 {
            match pick(9) {
                0 => {}
                k @ 1..=4 => {
                    b.visitor_threshold(LT[k - 1]);
                    t = Some(LT[k - 1]);
                    hist.push(format!("threshold {}", LT[k - 1]));
                }
                k => {
                    let x = LD[k - 5];
                    hist.push(format!("difficulty {x}"));
                    let r = b.difficulty_factor(x).map(|_| ());
                    let want = if x == 0 { Err(CaptchaError::DifficultyFactorZero) } else { Ok(()) };
                    c.check(r == want, || format!("{hist:?}: {r:?}"));
                    if x > 0 {
                        d = Some(x);
                    }
                }
            }
        }
        let r = b.build();
        let ok = match (&r, t, d) {
            (Ok(l), Some(t), Some(d)) => l.visitor_threshold == t && l.difficulty_factor == d,
            (Err(CaptchaError::SetVisitorThreshold), None, _) => true,
            (Err(CaptchaError::SetDifficultyFactor), _, None) => true,
            _ => false,
        };
        c.check(ok, || format!("{hist:?}: {r:?}"));
        c.obs(format!("{hist:?}"));
    })
    .about("all sequences of up to 3 calls to the level builder")
}
fn site_builders() -> Scenario {
    Scenario::new("site-builder", 0, move |c: Ctx| {
        const DUR: [u64; 4] = [0, 1, 30, u64::MAX];
        let defs = [cfg(&[(3, 5)], 1), cfg(&[(0, 1), (u32::MAX, u32::MAX)], 1)];
        let mut b = MCaptchaBuilder::default();
        let (mut du, mut de) = (None, None);
        let mut hist = vec![];
        for _ in 0..3 {
            match pick(7) {
                0 => {}
                k @ 1..=4 => {
                    b.duration(DUR[k - 1]);
                    du = Some(DUR[k - 1]);
                    hist.push(format!("duration {}", DUR[k - 1]));
                }
                k => {
                    b.defense(defs[k - 5].build().get_defense());
                    de = Some(defs[k - 5].levels.clone());
                    hist.push(format!("defense {}", k - 5));
                }
            }
        }
        let r = b.build();
        let again = b.build();
        c.check(format!("{r:?}") == format!("{again:?}"), || format!("{hist:?}: building twice gives {r:?} and {again:?}"));
        let ok = match (&r, du, &de) {
            (Ok(m), Some(du), Some(de)) if du > 0 => {
                view(m)
                    == View {
                        levels: de.clone(),
                        duration: du,
                        count: 0,
                        difficulty: de[0].1,
                        threshold: de[0].0,
                    }
            }
            (Err(CaptchaError::PleaseSetValue(s)), None, _) if s == "duration" => true,
            (Err(CaptchaError::PleaseSetValue(s)), _, None) if s == "defense" => true,
            (Err(CaptchaError::CaptchaDurationZero), Some(0), _) => true,
            _ => false,
        };
        c.check(ok, || format!("{hist:?}: {r:?}"));
        c.obs(format!("{hist:?}"));
    })
    .about("all sequences of up to 3 calls to the site builder")
}
/// numbers at which narrower or other types end, and their neighbours
fn scales() -> Vec<u32> {
    let mut v = vec![0, 1, 2, 3, 10, 100, 1000, 10_000, 100_000, 1_000_000, u32::MAX - 2, u32::MAX - 1, u32::MAX];
    for k in [4u32, 7, 8, 9, 10, 12, 15, 16, 17, 20, 23, 24, 25, 26, 28, 30, 31] {
        v.extend([(1u32 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.sort();
    v.dedup();
    v
}
/// Defenses, levels and sites over numbers of every size.
fn number_scales() -> Scenario {
    Scenario::new("number-scales", 0, move |c: Ctx| {
        let b = scales();
        let x = b[pick(b.len())];
        for &y in &b {
            // two levels whose thresholds are x and y, and some whose difficulties are
            for levels in [
                vec![(x, 10), (y, 10)],
                vec![(x, 10), (y, 20)],
                vec![(x, 20), (y, 10)],
                vec![(1, x), (2, y)],
                vec![(2, x), (1, y)],
                vec![(x, y)],
                vec![(x, x), (y, y)],
                vec![(x, y), (y, x)],
                vec![(7, 5), (x, 9), (y, 11)],
                vec![(y, 11), (7, 5), (x, 5)],
                vec![(x, 3), (x.wrapping_add(256), 4), (y, 5)],
                vec![(1, 1), (2, x), (3, y), (4, u32::MAX)],
            ] {
                one_defense(&c, &levels);
                if c.failed() {
                    return;
                }
            }
        }
        for d in [x as u64, (x as u64) << 32, (x as u64) << 20 | 1] {
            let r = MCaptchaBuilder::default().defense(cfg(&[(3, 5)], 1).build().get_defense()).duration(d).build();
            c.check(
                match &r {
                    Ok(m) => d > 0 && m.get_duration() == d,
                    Err(e) => d == 0 && *e == CaptchaError::CaptchaDurationZero,
                },
                || format!("duration {d}: {r:?}"),
            );
        }
        let l = LevelBuilder::default().visitor_threshold(x).difficulty_factor(x).and_then(|b| b.build());
        c.check(
            match &l {
                Ok(l) => x > 0 && (l.visitor_threshold, l.difficulty_factor) == (x, x),
                Err(e) => x == 0 && *e == CaptchaError::DifficultyFactorZero,
            },
            || format!("a level of {x}: {l:?}"),
        );
        c.obs(format!("{x}"));
    })
    .about(format!("defenses of 1-4 levels whose thresholds or difficulties are every pair out of {} numbers around the powers of two and ten; levels and durations of these numbers", scales().len()))
}
/// Sizes around powers of two and round numbers, with at most one fault, at either end or in the middle.
fn huge_defense(max: usize) -> Scenario {
    let sizes: Vec<usize> = [50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]
        .into_iter()
        .filter(|n| *n <= max)
        .collect();
    Scenario::new(format!("huge-defense-{max}"), 0, move |c: Ctx| {
        let n = sizes[pick(sizes.len())];
        let flat = pick(2) == 1;
        let back = pick(2) == 1;
        let base: Vec<(u32, u32)> = (0..n as u32).map(|i| (i * 10, if flat { 7 } else { 3 + i * 2 })).collect();
        let mut all = vec![base.clone()];
        let at: Vec<usize> = [0, 1, 15, 16, 17, 31, 32, 33, n / 2, n - 2, n - 1].into_iter().filter(|i| *i < n).collect();
        for &i in &at {
            for &j in &at {
                if i != j {
                    let mut l = base.clone();
                    l[i] = base[j];
                    all.push(l);
                    let mut l = base.clone();
                    l[i].1 = base[j].1;
                    all.push(l);
                }
            }
            let mut l = base.clone();
            l[i].1 = 0;
            all.push(l);
        }
        for mut l in all {
            if back {
                l.reverse();
            }
            one_defense(&c, &l);
            if c.failed() {
                return;
            }
        }
        c.obs(format!("{n} {flat} {back}"));
    })
    .about(format!("up to {max} levels in both orders, difficulties rising or all the same: well-formed, or with one level or difficulty near either end or the middle replaced by another such one"))
    .shard(1)
}
/// Many levels with at most one fault among them.
fn large_defense(max: usize) -> Scenario {
    Scenario::new(format!("large-defense-{max}"), 0, move |c: Ctx| {
        let n = 5 + pick(max - 4);
        let order = pick(4);
        let mut perm: Vec<usize> = (0..n).collect();
        match order {
            0 => {}
            1 => perm.reverse(),
            2 => perm.sort_by_key(|i| (i % 3, *i)),
            _ => perm.sort_by_key(|i| (i * 7919) % 101),
        }
        let base: Vec<(u32, u32)> = (0..n as u32).map(|i| (i * 10, 3 + i * 2)).collect();
        let go = |levels: &[(u32, u32)]| {
            let l: Vec<(u32, u32)> = perm.iter().map(|&i| levels[i]).collect();
            one_defense(&c, &l);
            !c.failed()
        };
        if !go(&base) {
            return;
        }
        for i in 0..n {
            for j in 0..n {
                // the same threshold twice, a difficulty that falls, one that stays
                let mut l = base.clone();
                l[i].0 = base[j].0;
                if !go(&l) {
                    return;
                }
                // nothing else wrong with it
                let mut l = base.clone();
                l[i] = base[j];
                if !go(&l) {
                    return;
                }
                let mut l = base.clone();
                l[i].1 = base[j].1;
                if !go(&l) {
                    return;
                }
                let mut l = base.clone();
                l.swap(i, j);
                if !go(&l) {
                    return;
                }
            }
            let mut l = base.clone();
            l[i].1 = 0;
            if !go(&l) {
                return;
            }
        }
        c.obs(format!("{n} {order}"));
    })
    .about(format!("5-{max} levels added in 4 orders: well-formed, with the threshold or the difficulty of any one level replaced by that of any other, any two swapped, any difficulty zero"))
    .shard(2)
}
pub fn c08(t: Tier) -> Vec<Scenario> {
    vec![defenses(t.or(5, 6)), number_scales(), level_builders(), site_builders(), large_defense(t.or(40, 60)), huge_defense(t.or(1025, 4097))]
}

// ---- C22 -----------------------------------------------------------------------------
/// to JSON and back, as text and as a value
fn trip<T: Serialize + DeserializeOwned>(c: &Ctx, v: &T, what: &str) -> Option<T> {
    let s = match serde_json::to_string(v) {
        Ok(s) => s,
        Err(e) => {
            c.fail(format!("{what}: cannot be serialised: {e}"));
            return None;
        }
    };
    let back: T = match serde_json::from_str(&s) {
        Ok(b) => b,
        Err(e) => {
            c.fail(format!("{what}: {s} cannot be read: {e}"));
            return None;
        }
    };
    // the same through a reader and through a value
    let val = serde_json::to_value(v).unwrap();
    let a = serde_json::to_value(&back).unwrap();
    c.check(a == val, || format!("{what}: {val} becomes {a}"));
    for b in [
        serde_json::from_value::<T>(val.clone()).map_err(|e| e.to_string()),
        serde_json::from_reader::<_, T>(s.as_bytes()).map_err(|e| e.to_string()),
        serde_json::from_slice::<T>(&serde_json::to_vec_pretty(v).unwrap()).map_err(|e| e.to_string()),
    ] {
        match b {
            Err(e) => c.fail(format!("{what}: {val} cannot be read: {e}")),
            Ok(b) => {
                let b = serde_json::to_value(&b).unwrap();
                c.check(b == val, || format!("{what}: {val} becomes {b}"));
            }
        }
    }
    Some(back)
}
fn same<T: std::fmt::Debug>(c: &Ctx, a: &T, b: &T, what: &str) {
    c.check(format!("{a:?}") == format!("{b:?}"), || format!("{what}: {a:?} becomes {b:?}"));
}

/// every reachable state of a site, stored and read back
fn site_trips(name: &str, max: usize, ts: &'static [u32], ds: &'static [u32]) -> Scenario {
    Scenario::new(name, 0, move |c: Ctx| {
        let cf = pick_cfg(max, ts, ds, [1, 30, u64::MAX][pick(3)]);
        let top = ts.iter().rev().find(|t| **t < 100).unwrap() + 2;
        let mut seen = HashSet::new();
        let mut q = VecDeque::from([cf.build()]);
        while let Some(m) = q.pop_front() {
            if m.get_visitors() > top || !seen.insert(format!("{m:?}")) {
                continue;
            }
            let what = format!("{:?}", view(&m));
            if let Some(b) = trip(&c, &m, &what) {
                same(&c, &m, &b, &what);
                c.check(view(&m) == view(&b), || format!("{what} becomes {:?}", view(&b)));
                c.state(hash(&view(&b)));
                // and behaves the same from here on
                let (mut x, mut y) = (m.clone(), b);
                for n in 0..6u32 {
                    if n % 3 == 2 {
                        x.decrement_visitor_by(n);
                        y.decrement_visitor_by(n);
                    } else {
                        x.add_visitor();
                        y.add_visitor();
                    }
                    c.check(view(&x) == view(&y), || format!("{what}: after {n} more steps {:?} and {:?}", view(&x), view(&y)));
                }
            }
            let d = m.get_defense();
            if let Some(b) = trip(&c, &d, &what) {
                c.check(b == d, || format!("{d:?} becomes {b:?}"));
                let (mut x, mut y) = (d.clone(), b);
                x.tighten_up();
                y.tighten_up();
                c.check(x == y, || format!("{d:?}: tightened {x:?} and {y:?}"));
            }
            let l = *d.current_level();
            if let Some(b) = trip(&c, &l, &what) {
                c.check(b == l, || format!("{l:?} becomes {b:?}"));
            }
            let s = mm::AddSite {
                id: "site \"1\"".into(),
                mcaptcha: m.clone(),
            };
            if let Some(b) = trip(&c, &s, &what) {
                same(&c, &s, &b, "AddSite");
            }
            let s = mm::InternalData {
                name: "ü/{}".into(),
                mcaptcha: m.clone(),
            };
            if let Some(b) = trip(&c, &s, &what) {
                same(&c, &s, &b, "InternalData");
            }
            let counter: libmcaptcha::Counter = m.clone().into();
            if let Some(b) = trip(&c, &counter, &what) {
                same(&c, &counter, &b, "Counter");
            }
            let mut builder = MCaptchaBuilder::default();
            for step in 0..3 {
                if let Some(b) = trip(&c, &builder, &what) {
                    same(&c, &builder, &b, "MCaptchaBuilder");
                    let (mut x, mut y) = (builder.clone(), b);
                    c.check(format!("{:?}", x.build()) == format!("{:?}", y.build()), || format!("{what}: the builders differ"));
                }
                if step == 0 {
                    builder.defense(d.clone());
                } else {
                    builder.duration(m.get_duration());
                }
            }
            // snapshots are maps from names to sites
            let snap: HashMap<String, MCaptcha> = [("a".to_string(), m.clone()), ("\u{1F600} b".into(), cf.build())].into();
            if let Some(b) = trip(&c, &snap, "snapshot") {
                c.check(b.len() == 2 && snap.iter().all(|(k, v)| b.get(k).map(view) == Some(view(v))), || {
                    format!("{snap:?} becomes {b:?}")
                });
            }
            // the registration payload
            let p: CreateMCaptcha = m.clone().into();
            let lv: Vec<(u32, u32)> = p.levels.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect();
            c.check(lv == cf.levels && p.duration == cf.duration, || format!("{what}: registered as {lv:?}, {}", p.duration));
            let want = serde_json::json!({
                "levels": cf.levels.iter().map(|l| serde_json::json!({"visitor_threshold": l.0, "difficulty_factor": l.1})).collect::<Vec<_>>(),
                "duration": cf.duration,
            });
            let got = serde_json::to_value(&p).unwrap();
            c.check(got == want, || format!("{what}: the registration payload is {got}"));
            if let Some(b) = trip(&c, &p, &what) {
                let l: Vec<(u32, u32)> = b.levels.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect();
                c.check(l == cf.levels && b.duration == cf.duration, || format!("{what}: the payload becomes {l:?}, {}", b.duration));
            }
            if c.failed() {
                return;
            }
            let mut n = m.clone();
            n.add_visitor();
            q.push_back(n);
            for by in [1, 3] {
                let mut n = m.clone();
                n.decrement_visitor_by(by);
                q.push_back(n);
            }
        }
        c.obs(format!("{cf:?}: {} states", seen.len()));
    })
    .shard(2)
    .about(format!("every reachable state of every configuration of 1-{max} levels with thresholds {ts:?} and difficulties {ds:?}, as site, defense, level, counter, builder, message, snapshot and registration payload"))
}
/// Long ladders, large numbers and large counts, stored and read back.
fn big_trips() -> Scenario {
    Scenario::new("big-sites", 0, move |c: Ctx| {
        let kind = pick(2);
        let (cf, counts) = if kind == 0 {
            let sizes: Vec<u32> = (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025]).collect();
            let n = sizes[pick(sizes.len())];
            (Cfg { levels: (0..n).map(|i| (i, 1 + i)).collect(), duration: 30 }, vec![n - 1, n, n + 7])
        } else {
            // any number anywhere
            let k = pick(32);
            let x = (1u64 << k) + [0, 1, u64::MAX][pick(3)].min(1);
            let x = [x, x - 1][pick(2)].clamp(1, u32::MAX as u64) as u32;
            let cf = match pick(3) {
                0 => cfg(&[(x, 7)], 30),
                1 => cfg(&[(1, 1), (2.max(x), x)], 30),
                _ => cfg(&[(0, 1), (1, x)], x as u64),
            };
            (cf, vec![x, x.saturating_add(1)])
        };
        let m = cf.build();
        for n in counts {
            let mut m = m.clone();
            // the count itself can only be had by visiting, or from a stored state
            if kind == 0 {
                for _ in 0..n {
                    m.add_visitor();
                }
            } else {
                m.add_visitor();
                m.add_visitor();
                m.add_visitor();
                let mut v = serde_json::to_value(&m).unwrap();
                let o = v.as_object_mut().unwrap();
                let f: Vec<String> = o.iter().filter(|(k, v)| v.as_u64() == Some(3) && *k != "duration").map(|(k, _)| k.clone()).collect();
                if let [f] = &f[..] {
                    o.insert(f.clone(), n.into());
                    match serde_json::from_value(v) {
                        Ok(x) => m = x,
                        Err(e) => c.fail(format!("{cf:?} with {n} visitors: {e}")),
                    }
                    c.check(m.get_visitors() == n, || format!("{n} visitors are read as {}", m.get_visitors()));
                }
            }
            let what = format!("{} levels, {n} visitors, level {}", cf.levels.len(), m.get_difficulty());
            if let Some(b) = trip(&c, &m, &what) {
                c.check(view(&m) == view(&b), || format!("{what}: {:?} becomes {:?}", view(&m), view(&b)));
            }
            let d = m.get_defense();
            if let Some(b) = trip(&c, &d, &what) {
                c.check(b == d, || format!("{what}: {d:?} becomes {b:?}"));
            }
            let counter: libmcaptcha::Counter = m.clone().into();
            if let Some(b) = trip(&c, &counter, &what) {
                same(&c, &counter, &b, "Counter");
            }
            let s = mm::AddSite { id: "s".into(), mcaptcha: m.clone() };
            if let Some(b) = trip(&c, &s, &what) {
                c.check(view(&b.mcaptcha) == view(&m), || format!("{what}: AddSite of {:?} becomes {:?}", view(&m), view(&b.mcaptcha)));
            }
            let p: CreateMCaptcha = m.clone().into();
            let list = |p: &CreateMCaptcha| -> Vec<(u32, u32)> { p.levels.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect() };
            c.check(list(&p) == cf.levels && p.duration == cf.duration, || format!("{what}: registered as {:?}, {}", list(&p), p.duration));
            if let Some(b) = trip(&c, &p, &what) {
                c.check(list(&b) == cf.levels && b.duration == cf.duration, || format!("{what}: the payload becomes {:?}, {}", list(&b), b.duration));
            }
            c.state(hash(&(&cf, n)));
        }
        c.obs(format!("{} {:?}", cf.levels.len(), cf.levels.last()));
    })
    .about("sites of 57 numbers of levels up to 1025 at the top of their ladder; and sites with every power of two and its neighbours as threshold, difficulty, duration or count: as site, defense, counter, message and registration payload")
}
const STR: [&str; 9] = [
    "", "a", "example.com", "with \"quotes\" and \\", "line\nbreak\t\u{0}", "ünïcode \u{1F600}", "{\"json\":1}", "null", " spaces ",
];
const N32: [u32; 4] = [0, 1, 50_000, u32::MAX];
const N64: [u64; 5] = [0, 1, 1 << 53, (1 << 53) + 1, u64::MAX];
fn messages() -> Scenario {
    Scenario::new("messages", 0, move |c: Ctx| {
        let s = |i: usize| STR[i].to_string();
        let (a, b) = (pick(STR.len()), pick(STR.len()));
        for n in N32 {
            for l in N64 {
                macro_rules! go {
                    ($t:expr, |$x:ident : $ty:ty| $k:expr) => {{
                        let v = $t;
                        let key = |$x: &$ty| $k;
                        let name = stringify!($ty);
                        if let Some(w) = trip(&c, &v, name) {
                            let (k1, k2) = (key(&v), key(&w));
                            c.check(k1 == k2, || format!("{name}: {k1:?} becomes {k2:?}"));
                        }
                    }};
                }
                go!(PoWConfig { string: s(a), difficulty_factor: n, salt: s(b) },
                    |x: PoWConfig| (x.string.clone(), x.difficulty_factor, x.salt.clone()));
                go!(Work { string: s(a), result: u128::MAX.to_string(), nonce: l, key: s(b) },
                    |x: Work| (x.string.clone(), x.result.clone(), x.nonce, x.key.clone()));
                go!(Work { string: s(b), result: s(a), nonce: l, key: s(a) },
                    |x: Work| (x.string.clone(), x.result.clone(), x.nonce, x.key.clone()));
                go!(cm::CachePoW { string: s(a), difficulty_factor: n, duration: l, key: s(b) },
                    |x: cm::CachePoW| (x.string.clone(), x.difficulty_factor, x.duration, x.key.clone()));
                go!(cm::CachedPoWConfig { key: s(a), difficulty_factor: n, duration: l },
                    |x: cm::CachedPoWConfig| (x.key.clone(), x.difficulty_factor, x.duration));
                go!(cm::CacheResult { token: s(a), key: s(b), duration: l },
                    |x: cm::CacheResult| (x.token.clone(), x.key.clone(), x.duration));
                go!(cm::VerifyCaptchaResult { token: s(a), key: s(b) },
                    |x: cm::VerifyCaptchaResult| (x.token.clone(), x.key.clone()));
                go!(AddChallenge { difficulty: n, duration: l, challenge: s(a) },
                    |x: AddChallenge| (x.difficulty, x.duration, x.challenge.clone()));
                go!(AddVisitorResult { duration: l, difficulty_factor: n },
                    |x: AddVisitorResult| (x.duration, x.difficulty_factor));
                go!(Level { visitor_threshold: n, difficulty_factor: !n },
                    |x: Level| (x.visitor_threshold, x.difficulty_factor));
                go!(mm::AddVisitor(s(a)), |x: mm::AddVisitor| x.0.clone());
                go!(mm::RemoveCaptcha(s(a)), |x: mm::RemoveCaptcha| x.0.clone());
                go!(mm::Rename { name: s(a), rename_to: s(b) },
                    |x: mm::Rename| (x.name.clone(), x.rename_to.clone()));
                go!(CreateMCaptcha { levels: vec![Level { visitor_threshold: n, difficulty_factor: n }; 2], duration: l },
                    |x: CreateMCaptcha| (x.levels.clone(), x.duration));
            }
        }
        // what a challenge leaves behind keeps site and duration
        for l in N64 {
            let r: cm::CacheResult = cm::CachedPoWConfig { key: s(a), difficulty_factor: 3, duration: l }.into();
            c.check(r.key == s(a) && r.duration == l && !r.token.is_empty(), || format!("token for {:?} {}", r.key, r.duration));
        }
        c.obs(format!("{a} {b}"));
    })
    .about("every message and data type over small domains of strings with special characters and extreme numbers")
}
pub fn c22(t: Tier) -> Vec<Scenario> {
    vec![
        site_trips("sites", 4, t.or(&[0, 1, 3, 4, u32::MAX], &[0, 1, 2, 3, 4, 9, 17, u32::MAX]), t.or(&[1, 2, u32::MAX], &[1, 2, 3, u32::MAX])),
        big_trips(),
        messages(),
    ]
}
