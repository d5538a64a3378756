//! The search runs in a child process, so that a crash of the code under test (abort, exhausted stack or
//! memory) or a run which does not end is found out and reported like any other failure.

use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::driver::{env_u64, json_str, out_dir, parse_seed};
use crate::steps::{generate, profile, Step};
use crate::PROPS;

/// A run taking longer (wall clock) is considered not to end; usual runs take well below a second.
pub const HANG_S: u64 = 90;
pub const HANG: i32 = 86;

#[derive(Clone, Debug, PartialEq, Eq)]
enum End {
    Code(i32),
    Crash(String),
    Hang,
}

fn child(args: &[&str], flight: Option<&str>, limit: Duration, quiet: bool) -> End {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.args(args);
    if let Some(f) = flight {
        c.env("VERIF_FLIGHT", f);
    }
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    let mut c = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("can't start: {e}");
            return End::Code(2);
        }
    };
    let start = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                use std::os::unix::process::ExitStatusExt;
                return match (st.code(), st.signal()) {
                    (Some(HANG), _) => End::Hang,
                    (Some(n), _) => End::Code(n),
                    (None, Some(6)) => End::Crash(s!("aborted")),
                    (None, Some(11)) => End::Crash(s!("memory fault or stack exhausted")),
                    (None, s) => End::Crash(format!("killed by signal {s:?}")),
                };
            }
            Ok(None) if start.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                return End::Hang;
            }
            _ => std::thread::sleep(Duration::from_millis(10)),
        }
    }
}

fn text(prop: &str, seed: u64, what: &str, steps: &[Step]) -> String {
    let mut t = format!("# {what}\nproperty {prop}\nseed {seed:#x}\ndigest -\n");
    for s in steps {
        t += &format!("step {}\n", s.text());
    }
    t
}

pub fn check(id: &str) -> i32 {
    let Some(prop) = PROPS.iter().copied().find(|p| *p == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let start = Instant::now();
    let flight = format!("{}/replays/flight-{prop}-{}", out_dir(), std::process::id());
    let _ = std::fs::create_dir_all(&flight);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let limit = Duration::from_secs(env_u64("VERIF_CAP_S", if thorough { 700 } else { 60 }) + 2 * HANG_S + 60);
    let end = child(&["search", prop], Some(&flight), limit, false);
    let mut seeds: Vec<u64> = vec![];
    if let Ok(d) = std::fs::read_dir(&flight) {
        for f in d.flatten() {
            seeds.extend(std::fs::read_to_string(f.path()).ok().and_then(|s| parse_seed(s.trim())));
        }
    }
    let _ = std::fs::remove_dir_all(&flight);
    if let End::Code(n) = end {
        return n;
    }
    seeds.sort();
    let p = profile(prop).unwrap();
    let tmp = format!("{}/replays/{prop}-try-{}.replay", out_dir(), std::process::id());
    for seed in seeds {
        let steps = generate(&p, seed);
        let fails = |s: &[Step], limit: u64| -> Option<End> {
            let _ = std::fs::write(&tmp, text(prop, seed, "", s));
            match child(&["replay-here", &tmp], None, Duration::from_secs(limit), true) {
                End::Code(_) => None,
                e => Some(e),
            }
        };
        let Some(e) = fails(&steps, HANG_S) else { continue };
        let what = match &e {
            End::Hang => s!("the code under test does not return"),
            End::Crash(s) => format!("the code under test crashes the process: {s}"),
            End::Code(_) => unreachable!(),
        };
        let mut cur = steps;
        let since = Instant::now();
        let mut chunk = (cur.len() / 2).max(1);
        'min: loop {
            let mut i = 0;
            let mut any = false;
            while i < cur.len() {
                if since.elapsed() > Duration::from_secs(100) {
                    break 'min;
                }
                let mut t = cur.clone();
                t.drain(i..(i + chunk).min(cur.len()));
                if fails(&t, 15).as_ref() == Some(&e) {
                    cur = t;
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 && !any {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        let _ = std::fs::remove_file(&tmp);
        let path = format!("{}/replays/{prop}-{seed:016x}.replay", out_dir());
        let _ = std::fs::write(&path, text(prop, seed, &what, &cur));
        println!("{what}");
        println!("VIOLATION property={prop} replay={path}");
        let q = json_str;
        let ev = format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": 1, \
             \"distinct_nontrivial\": 1, \"rule\": {}, \"samples\": [{}]}},\n \"wall_s\": {:.2}, \"assumptions\": [],\n \
             \"violations\": [{}]\n}}\n",
            q(prop),
            q(if thorough { "thorough" } else { "quick" }),
            env_u64("VERIF_SEED", 1),
            q("the search was ended by the crash; only the crashing run is counted"),
            q(&format!("seed {seed:#x}")),
            start.elapsed().as_secs_f64(),
            q(&what)
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", out_dir()));
        let _ = std::fs::write(format!("{}/evidence/{prop}.json", out_dir()), ev);
        return 1;
    }
    let _ = std::fs::remove_file(&tmp);
    eprintln!("the search ended abnormally ({end:?}) and no single run shows why");
    3
}

pub fn replay(path: &str) -> i32 {
    match child(&["replay-here", path], None, Duration::from_secs(2 * HANG_S), false) {
        End::Code(n) => n,
        e => {
            let prop = std::fs::read_to_string(path)
                .ok()
                .and_then(|t| t.lines().find_map(|l| l.strip_prefix("property ").map(|s| s.trim().to_string())))
                .unwrap_or_default();
            println!("{e:?}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
    }
}
