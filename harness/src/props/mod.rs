use crate::engine::Scenario;
pub mod common;
pub mod cache;
pub mod faults;
#[cfg(feature = "queue")]
pub mod queue;
pub mod redis;
pub mod registry;
pub mod site;
pub mod system;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough one
    pub fn or<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
    "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23",
];

pub struct Meta {
    pub level: &'static str,
    pub assumptions: Vec<&'static str>,
}

/// what every check relies on
const ALWAYS: &[&str] = &[
    "the bounds of each scenario (coverage.scenarios.*.about): nothing is said about larger ones",
    "time is virtual and judged 0.2 s away from the instants at which entries or visitors end",
];
const SCHED: &[&str] = &[
    "threads interleave at channel operations, futex calls, thread creation and join, sleeps and yields; memory is sequentially consistent",
    "schedules depart from the default at most as often as the deviation bound of the scenario says",
];
const TASKS: &[&str] = &["tasks of one executor are polled first come, first served, but for the departures the deviation bound allows"];
const QUEUE: &[&str] = &["the hook shows the verification queue's interface (Manager, Runnable) as it is"];
const REDIS: &[&str] = &[
    "Redis behaves like the stand-in, which is compared with a real redis-server (C18, reference-server); the module's commands follow the published mCaptcha/cache module",
    "redis-rs is the version locked in /repo",
];
const FRESH: &[&str] = &["strings of challenges and tokens are fresh, as the system's are"];

pub fn meta(id: &str) -> Option<Meta> {
    let own: &[&[&'static str]] = match id {
        "C02" | "C03" | "C23" => &[SCHED, TASKS],
        "C01" | "C17" => &[SCHED, TASKS, FRESH],
        "C04" | "C05" => &[TASKS, FRESH],
        "C06" | "C13" | "C14" | "C15" | "C16" => &[TASKS],
        "C09" | "C10" | "C11" | "C12" => &[SCHED, QUEUE],
        "C18" | "C19" | "C20" | "C21" => &[REDIS],
        _ => &[],
    };
    IDS.contains(&id).then(|| Meta {
        level: "model_checking",
        assumptions: ALWAYS.iter().chain(own.iter().copied().flatten()).copied().collect(),
    })
}

pub fn scenarios(id: &str, tier: Tier) -> Vec<Scenario> {
    match id {
        "C01" => system::c01(tier),
        "C02" => system::c02(tier),
        "C03" => system::c03(tier),
        "C04" => cache::c04(tier),
        "C05" => cache::c05(tier),
        "C06" => registry::c06(tier),
        "C07" => site::c07(tier),
        "C08" => site::c08(tier),
        #[cfg(feature = "queue")]
        "C09" => queue::c09(tier),
        #[cfg(feature = "queue")]
        "C10" => queue::c10(tier),
        #[cfg(feature = "queue")]
        "C11" => queue::c11(tier),
        #[cfg(feature = "queue")]
        "C12" => queue::c12(tier),
        "C13" => registry::c13(tier),
        "C14" => registry::c14(tier),
        "C15" => registry::c15(tier),
        "C16" => registry::c16(tier),
        "C17" => system::c17(tier),
        "C18" => redis::c18(tier),
        "C19" => redis::c19(tier),
        "C20" => redis::c20(tier),
        "C21" => redis::c21(tier),
        "C23" => faults::c23(tier),
        "C22" => site::c22(tier),
        _ => vec![],
    }
}
