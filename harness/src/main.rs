//! mcheck: model checks libmcaptcha's real code.
//!
//!   mcheck check <property> [quick|thorough]   explore; evidence; verdict
//!   mcheck replay <file>                       replay one recorded execution
//!   mcheck list                                properties and scenarios
pub mod coord;
pub mod engine;
pub mod exec;
pub mod props;

pub const SCRATCH: &str = "MCHECK_SCRATCH";

fn main() {
    let a: Vec<String> = std::env::args().collect();
    vsched::install_panic_hook();
    // one scratch directory for this process and its workers
    let scratch = std::env::temp_dir().join(format!("mcheck-{}", std::process::id()));
    let mine = std::env::var_os(SCRATCH).is_none();
    if mine {
        std::env::set_var(SCRATCH, &scratch);
    }
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => coord::worker_main(&a[2..]),
        Some("replay") => coord::replay_main(&a[2..]),
        Some("check") => coord::check_main(&a[2..]),
        Some("list") => coord::list_main(),
        Some("strings") => {
            props::system::print_strings(a.get(2).and_then(|n| n.parse().ok()).unwrap_or(1));
            0
        }
        _ => {
            eprintln!("usage: mcheck check <property> [quick|thorough] | replay <file> | list");
            2
        }
    };
    props::redis::stop_real();
    if mine {
        let _ = std::fs::remove_dir_all(&scratch);
    }
    unsafe { libc::_exit(code) }
}
