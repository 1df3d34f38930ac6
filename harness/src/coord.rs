//! The coordinator: worker processes, verdict, evidence, replay.
use crate::engine::{self, progress, ScnStats, Violation, WorkerOut};
use crate::props::{self, Tier};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// no execution takes this long unless it hangs outside of the scheduler's view
const HANG: Duration = Duration::from_secs(25);
/// Nothing was reported for long enough, also for a machine that is busy with something else.
fn hangs(since: &(u64, Instant, f64), pid: u32) -> bool {
    let quiet = since.1.elapsed();
    quiet > HANG && (cpu_s(pid) - since.2 > HANG.as_secs_f64() * 0.8 || quiet > HANG * 5)
}
/// Seconds of processor time of a process.
fn cpu_s(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64
}

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| "/verif".into())
}
fn tier_of(s: Option<&String>) -> Tier {
    let env = std::env::var("VERIF_TIER").ok();
    match s.map(|s| s.as_str()).or(env.as_deref()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}
/// (key, text) of the recorded, unrepaired findings of a property
fn known_findings(id: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(verif().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.trim().strip_prefix("known: ")?;
            let l = l.strip_prefix(&format!("property={id} "))?;
            let l = l.strip_prefix("key=")?;
            let (k, t) = l.split_once(' ')?;
            Some((k.to_string(), t.to_string()))
        })
        .collect()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ReplayFile {
    pub property: String,
    pub kind: String,
    #[serde(default)]
    pub tier: String,
    #[serde(flatten)]
    pub v: Violation,
}

// ---- worker ------------------------------------------------------------------------
pub fn worker_main(a: &[String]) -> i32 {
    // worker <id> <tier> <k> <W> <fd> <budget>
    let mut out = engine::quiet_stdout();
    let tier = tier_of(Some(&a[1]));
    engine::set_known(known_findings(&a[0]).into_iter().map(|x| x.0).collect());
    progress::attach(a[4].parse().unwrap());
    let scs = props::scenarios(&a[0], tier);
    let w = engine::worker(
        &scs,
        (a[2].parse().unwrap(), a[3].parse().unwrap()),
        a[5].parse().unwrap(),
    );
    engine::emit(&mut out, &w);
    0
}

fn memfd() -> i32 {
    unsafe {
        let fd = libc::memfd_create(b"progress\0".as_ptr() as *const _, 0);
        assert!(fd >= 0);
        assert!(libc::ftruncate(fd, progress::SIZE as i64) == 0);
        fd
    }
}

enum End {
    Out(WorkerOut),
    Crash(String, Violation),
    Error(String),
}

struct Work {
    child: Child,
    mem: *mut u8,
    /// progress, when it was last seen to change, processor time then
    last: (u64, Instant, f64),
    done: bool,
}

fn kill(c: &mut Child) {
    let _ = c.kill();
    let _ = c.wait();
}

fn run_workers(id: &str, tier: Tier, n: usize, budget: f64) -> (Vec<End>, bool) {
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel::<(usize, String)>();
    let mut ws = Vec::new();
    for k in 0..n {
        let fd = memfd();
        let mut child = Command::new(&exe)
            .arg("worker")
            .args([id, tier_name(tier), &k.to_string(), &n.to_string(), &fd.to_string()])
            .arg(budget.to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let mem = progress::map(fd);
        unsafe { libc::close(fd) };
        let mut so = child.stdout.take().unwrap();
        let mut se = child.stderr.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            let e = std::thread::spawn(move || {
                let mut s = Vec::new();
                let _ = se.read_to_end(&mut s);
                let s = String::from_utf8_lossy(&s).to_string();
                if !s.is_empty() {
                    eprint!("{}", s.chars().take(4000).collect::<String>());
                }
            });
            let mut s = String::new();
            let _ = so.read_to_string(&mut s);
            let _ = e.join();
            let _ = tx.send((k, s));
        });
        ws.push(Work {
            child,
            mem,
            last: (0, Instant::now(), 0.0),
            done: false,
        });
    }
    let t0 = Instant::now();
    let mut ends = Vec::new();
    let mut left = n;
    let hard = Duration::from_secs_f64(budget * 1.5 + 60.0);
    while left > 0 {
        let mut stop = false;
        match rx.recv_timeout(Duration::from_millis(300)) {
            Ok((k, s)) => {
                let st = ws[k].child.wait();
                ws[k].done = true;
                left -= 1;
                match serde_json::from_str::<WorkerOut>(&s) {
                    Ok(o) => {
                        // after an error the others go on: one of them may have a violation
                        stop = o.violation.is_some();
                        ends.push(End::Out(o));
                    }
                    Err(_) => {
                        use std::os::unix::process::ExitStatusExt;
                        let (_, name, dev) = progress::read(ws[k].mem);
                        let sig = st.as_ref().ok().and_then(|s| s.signal());
                        stop = true;
                        match sig {
                            Some(g) if g != libc::SIGKILL && g != libc::SIGTERM => {
                                ends.push(End::Crash(
                                    "crash".into(),
                                    Violation {
                                        scenario: name,
                                        deviations: dev,
                                        messages: vec![format!("the process died of signal {g}")],
                                        ..Default::default()
                                    },
                                ));
                            }
                            _ => ends.push(End::Error(format!(
                                "worker {k} ended without a result: {st:?} in {name} {dev:?}"
                            ))),
                        }
                    }
                }
            }
            Err(_) => {}
        }
        for w in ws.iter_mut().filter(|w| !w.done) {
            let (c, name, dev) = progress::read(w.mem);
            if c != w.last.0 {
                w.last = (c, Instant::now(), cpu_s(w.child.id()));
            } else if c > 0 && hangs(&w.last, w.child.id()) {
                ends.push(End::Crash(
                    "hang".into(),
                    Violation {
                        scenario: name,
                        deviations: dev,
                        messages: vec![
                            "the execution does not end: the code under test loops or blocks for good".into(),
                        ],
                        ..Default::default()
                    },
                ));
                stop = true;
            }
        }
        if t0.elapsed() > hard {
            ends.push(End::Error("workers exceed the time limit".into()));
            stop = true;
        }
        if stop {
            for w in ws.iter_mut().filter(|w| !w.done) {
                kill(&mut w.child);
            }
            return (ends, true);
        }
    }
    (ends, false)
}

// ---- replay ------------------------------------------------------------------------
pub fn replay_main(a: &[String]) -> i32 {
    let json_out = a.iter().any(|x| x == "--json");
    if let Some(fd) = std::env::var("MCHECK_PROGRESS").ok().and_then(|s| s.parse().ok()) {
        progress::attach(fd);
    }
    let f: ReplayFile =
        serde_json::from_str(&std::fs::read_to_string(&a[0]).expect("replay file")).expect("replay file");
    engine::set_known(known_findings(&f.property).into_iter().map(|x| x.0).collect());
    let mut out = engine::quiet_stdout();
    let tier = tier_of(Some(&f.tier));
    let sc = props::scenarios(&f.property, tier)
        .into_iter()
        .find(|s| s.name == f.v.scenario)
        .expect("scenario");
    let o = engine::run_once(&sc, &f.v.deviations, true);
    if json_out {
        let v = Violation {
            scenario: sc.name.clone(),
            deviations: f.v.deviations.clone(),
            cost: f.v.cost,
            messages: o.messages.clone(),
            observations: o.obs,
            log: o.log,
        };
        let _ = writeln!(out, "{}", serde_json::to_string(&v).unwrap());
    } else {
        for l in &o.log {
            let _ = writeln!(out, "{l}");
        }
        let _ = writeln!(out, "observations:");
        for l in &o.obs {
            let _ = writeln!(out, "  {l}");
        }
        for m in &o.messages {
            let _ = writeln!(out, "FAIL {m}");
        }
        if let Some(d) = &o.diverged {
            let _ = writeln!(out, "DIVERGED {d}");
        }
        if o.messages.is_empty() {
            let _ = writeln!(out, "not reproduced");
        }
    }
    !o.messages.is_empty() as i32
}

/// Replays in a process of its own; None: it did not end or died.
fn replay_once(path: &std::path::Path) -> Result<Option<Violation>, String> {
    let fd = memfd();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["replay", path.to_str().unwrap(), "--json"])
        .env("MCHECK_PROGRESS", fd.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mem = progress::map(fd);
    unsafe { libc::close(fd) };
    let mut so = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    let mut last = (0, Instant::now(), 0.0);
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(s) => {
                let _ = c.wait();
                return Ok(serde_json::from_str(&s).ok());
            }
            Err(_) => {
                let n = progress::read(mem).0;
                if n != last.0 {
                    last = (n, Instant::now(), cpu_s(c.id()));
                } else if hangs(&last, c.id()) {
                    kill(&mut c);
                    return Ok(None);
                }
            }
        }
    }
}

// ---- check -------------------------------------------------------------------------
pub fn list_main() -> i32 {
    for id in props::IDS {
        for t in [Tier::Quick, Tier::Thorough] {
            for s in props::scenarios(id, t) {
                println!("{id} {} {} bound={}", tier_name(t), s.name, s.bound);
            }
        }
    }
    0
}

fn merge(into: &mut ScnStats, s: ScnStats) {
    into.executions += s.executions;
    into.points += s.points;
    into.steps += s.steps;
    into.nodes += s.nodes;
    into.checks += s.checks;
    into.max_threads = into.max_threads.max(s.max_threads);
    for (k, v) in s.by_cost {
        *into.by_cost.entry(k).or_default() += v;
    }
    into.outcomes.extend(s.outcomes);
    into.abs_states.extend(s.abs_states);
    into.abs_transitions += s.abs_transitions;
    if into.samples.len() < 2 {
        into.samples.extend(s.samples.into_iter().take(1));
    }
    into.capped |= s.capped;
    into.wall_s = into.wall_s.max(s.wall_s);
    into.bound = s.bound;
    into.about = s.about;
    into.known.extend(s.known);
}

pub fn check_main(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = a[0].as_str();
    let tier = tier_of(a.get(1));
    let meta = match props::meta(id) {
        Some(m) => m,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    let budget = std::env::var("VERIF_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(match tier {
            Tier::Quick => 150.0,
            Tier::Thorough => 700.0,
        });
    let (ends, _) = run_workers(id, tier, n, budget);
    let mut stats: BTreeMap<String, ScnStats> = BTreeMap::new();
    let mut viol: Option<(String, Violation)> = None;
    let mut errors = Vec::new();
    for e in ends {
        match e {
            End::Out(o) => {
                for (k, s) in o.stats {
                    merge(stats.entry(k).or_default(), s);
                }
                if let Some(v) = o.violation {
                    let better = match &viol {
                        Some((k, w)) => k != "fail" || v.deviations.len() < w.deviations.len(),
                        None => true,
                    };
                    if better {
                        viol = Some(("fail".into(), v));
                    }
                }
                if let Some(e) = o.error {
                    errors.push(e);
                }
            }
            End::Crash(kind, v) => {
                if viol.is_none() {
                    viol = Some((kind, v));
                }
            }
            End::Error(e) => errors.push(e),
        }
    }
    let evdir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let rpath = evdir.join(format!("{id}.replay.json"));
    let _ = std::fs::remove_file(&rpath);
    let mut verdict = 0;
    if let Some((kind, v)) = &viol {
        let mut f = ReplayFile {
            property: id.into(),
            kind: kind.clone(),
            tier: tier_name(tier).into(),
            v: v.clone(),
        };
        std::fs::write(&rpath, serde_json::to_string_pretty(&f).unwrap()).unwrap();
        // the recorded execution must fail the same way every time
        let mut ok = true;
        for _ in 0..2 {
            match replay_once(&rpath) {
                Ok(Some(r)) if kind == "fail" => {
                    if r.messages.is_empty() {
                        errors.push(format!("not reproduced: {:?}", v.messages));
                        ok = false;
                    } else {
                        f.v.log = r.log;
                        f.v.observations = r.observations;
                    }
                }
                Ok(Some(r)) => {
                    errors.push(format!("{kind} not reproduced ({:?})", r.messages));
                    ok = false;
                }
                Ok(None) if kind == "fail" => {
                    errors.push("the replay does not end".into());
                    ok = false;
                }
                Ok(None) => {}
                Err(e) => {
                    errors.push(e);
                    ok = false;
                }
            }
            if !ok {
                break;
            }
        }
        if ok {
            if f.v.log.len() > 3000 {
                f.v.log.truncate(3000);
            }
            std::fs::write(&rpath, serde_json::to_string_pretty(&f).unwrap()).unwrap();
            verdict = 1;
        }
    }
    if stats.values().map(|s| s.executions).sum::<u64>() == 0 {
        errors.push("nothing was explored".into());
    }
    if verdict == 0 && (viol.is_some() || !errors.is_empty()) {
        verdict = 3;
    }
    // What cannot be repeated is no counterexample; the machine may have stood still while it
    // ran. Everything is explored once more, from the start.
    if verdict == 3 && viol.is_some() && errors.iter().all(|e| e.contains("not reproduced")) && std::env::var_os("VERIF_AGAIN").is_none() {
        eprintln!("{}; exploring once more", errors.join("; "));
        let _ = std::fs::remove_file(&rpath);
        std::env::set_var("VERIF_AGAIN", "1");
        return check_main(a);
    }

    // evidence
    let mut tot = ScnStats::default();
    let mut per = serde_json::Map::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut abs: HashSet<(usize, u64)> = HashSet::new();
    let mut known: BTreeSet<String> = BTreeSet::new();
    for (i, (name, s)) in stats.iter().enumerate() {
        let o: HashSet<u64> = s.outcomes.iter().copied().collect();
        outcomes.extend(o.iter().map(|x| x ^ engine::hash_str(name)));
        let st: HashSet<u64> = s.abs_states.iter().copied().collect();
        abs.extend(st.iter().map(|x| (i, *x)));
        known.extend(s.known.iter().cloned());
        per.insert(
            name.clone(),
            json!({
                "executions": s.executions, "choice_points": s.points, "scheduling_steps": s.steps,
                "distinct_outcomes": o.len(), "oracle_checks": s.checks,
                "executions_by_deviations": s.by_cost, "deviation_bound": s.bound,
                "max_threads": s.max_threads, "explicit_states": st.len(),
                "explicit_transitions": s.abs_transitions,
                "about": s.about, "time_capped": s.capped, "wall_s": (s.wall_s * 100.0).round() / 100.0,
            }),
        );
        tot.executions += s.executions;
        tot.points += s.points;
        tot.steps += s.steps;
        tot.nodes += s.nodes;
        tot.checks += s.checks;
        tot.abs_transitions += s.abs_transitions;
        tot.capped |= s.capped;
        for x in &s.samples {
            if tot.samples.len() < 8 {
                tot.samples.push(x.clone());
            }
        }
    }
    if tot.samples.is_empty() {
        tot.samples.push("no execution was completed".into());
    }
    let mut cov = serde_json::Map::new();
    let put = |c: &mut serde_json::Map<String, Value>, k: &str, v: Value| {
        c.insert(k.into(), v);
    };
    put(&mut cov, "states", json!(tot.nodes + abs.len() as u64));
    put(&mut cov, "transitions", json!(tot.steps + tot.abs_transitions));
    put(&mut cov, "traces_validated_against_impl", json!(tot.executions));
    put(&mut cov, "distinct_outcomes", json!(outcomes.len()));
    put(&mut cov, "oracle_checks", json!(tot.checks));
    put(&mut cov, "explicit_states", json!(abs.len()));
    put(&mut cov, "exhaustive", json!(!tot.capped && verdict == 0));
    put(&mut cov, "time_capped", json!(tot.capped));
    put(&mut cov, "rule", json!("Every execution runs the library's own compiled code. states = nodes of the explored choice tree (distinct prefixes of scheduling and environment choices) plus explicit states where a scenario keeps them; transitions = scheduling steps plus explicit transitions; a trace is one complete execution compared with the oracle. 'exhaustive' is relative to the bounds listed per scenario."));
    put(&mut cov, "scenarios", Value::Object(per));
    put(&mut cov, "samples", json!(tot.samples));
    put(&mut cov, "workers", json!(n));
    let mut ev = json!({
        "property": id, "tier": tier_name(tier), "seed": seed, "level": meta.level,
        "coverage": cov,
        "assumptions": meta.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": (verdict == 1) as i32,
    });
    if !errors.is_empty() {
        ev["errors"] = json!(errors);
    }
    std::fs::write(
        evdir.join(format!("{id}.json")),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .unwrap();

    println!(
        "{id} {}: {} executions, {} states, {} transitions, {} distinct outcomes, {} oracle checks, {:.1} s{}",
        tier_name(tier),
        tot.executions,
        tot.nodes + abs.len() as u64,
        tot.steps + tot.abs_transitions,
        outcomes.len(),
        tot.checks,
        t0.elapsed().as_secs_f64(),
        if tot.capped { " (time cap hit)" } else { "" }
    );
    for (k, t) in known_findings(id) {
        if known.contains(&k) {
            println!("KNOWN-FINDING: property={id} key={k} {t}");
        }
    }
    for e in &errors {
        eprintln!("ERROR: {e}");
    }
    if verdict == 1 {
        let v = &viol.as_ref().unwrap().1;
        println!("scenario {} deviations {:?}", v.scenario, v.deviations);
        for m in v.messages.iter().take(12) {
            println!("  {m}");
        }
        println!("VIOLATION property={id} replay={}", rpath.display());
    }
    std::io::stdout().flush().unwrap();
    verdict
}
