//! Seeded search over runs, minimisation, replay and evidence.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::rng::mix;
use crate::schema::{kits, Kits};
use crate::steps::{generate, profile, Profile, Step};
use crate::sys::Sys;
use crate::world::{install_panic_hook, Fault, World};
use crate::PROPS;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub viol: Option<(String, String)>,
    pub digest: u64,
    pub states: Vec<u64>,
    pub stats: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<String, u64>,
    pub other: Vec<(String, String)>,
    pub log: Vec<String>,
    pub sim_s: i64,
    pub steps: u64,
    pub disk_ops: u64,
    /// The harness itself could not go on: nothing is concluded from the run.
    pub harness: Option<String>,
}

/// Executes one run on a fresh thread: everything the run does follows from the seed and the list of steps.
pub fn execute(prop: &'static str, seed: u64, steps: &[Step], kits: Arc<Kits>, keep_log: bool) -> Outcome {
    // Process-wide values which libraries initialise on their first use (and which take randomness for
    // that) must exist before anything is measured.
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| {
        for seed in 1..4 {
            let steps = generate(&profile("C01").unwrap(), seed);
            let _ = on_thread("C01", seed, &steps, kits.clone(), false);
        }
    });
    on_thread(prop, seed, steps, kits, keep_log)
}

fn on_thread(prop: &'static str, seed: u64, steps: &[Step], kits: Arc<Kits>, keep_log: bool) -> Outcome {
    let steps = steps.to_vec();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || run_here(prop, seed, &steps, kits, keep_log))
        .expect("thread");
    match h.join() {
        Ok(o) => o,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| s!("?"));
            eprintln!("harness error in run {seed:#x}: {m}");
            Outcome { harness: Some(m), ..Outcome::default() }
        }
    }
}

fn run_here(prop: &'static str, seed: u64, steps: &[Step], kits: Arc<Kits>, keep_log: bool) -> Outcome {
    let p = profile(prop).expect("known property");
    let mut sys = Sys::new(mix(seed ^ 0x515));
    let ptr: *mut Sys = &mut *sys;
    Sys::install(ptr);
    let mut w = World::new(seed, Some(p.prop), p.conf.clone(), kits, ptr);
    unsafe { (*ptr).legal_noise = p.conf.noise as u64 };
    let mut n = 0;
    for s in steps {
        n += 1;
        w.exec(s);
        if w.viol.is_some() {
            break;
        }
    }
    if w.viol.is_none() && p.heal {
        w.heal();
    }
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &w.fired {
        *faults.entry(k.to_string()).or_default() += v;
    }
    for (k, v) in unsafe { &(*ptr).injected } {
        *faults.entry(k.to_string()).or_default() += v;
    }
    w.digest.add(&unsafe { (*ptr).entropy_used }.to_le_bytes());
    let o = Outcome {
        viol: w.viol.as_ref().map(|v| (v.prop.clone(), v.msg.clone())),
        digest: w.digest.0,
        states: std::mem::take(&mut w.states),
        stats: std::mem::take(&mut w.stats),
        faults,
        other: w.other.iter().map(|v| (v.prop.clone(), v.msg.clone())).collect(),
        log: if keep_log { std::mem::take(&mut w.log) } else { vec![] },
        sim_s: w.now - crate::world::T0,
        steps: n,
        disk_ops: unsafe { (*ptr).disk_ops },
        harness: None,
    };
    drop(w);
    Sys::uninstall();
    o
}

pub fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(default)
}

pub fn main() -> i32 {
    install_panic_hook();
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(50));
        let statm = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
        let pages: u64 = statm.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
        if pages > (12 << 30) / 4096 {
            eprintln!("a run takes all the memory");
            std::process::exit(crate::guardian::HANG);
        }
    });
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => crate::guardian::check(args.get(2).map(|s| s.as_str()).unwrap_or("")),
        Some("replay") => crate::guardian::replay(args.get(2).map(|s| s.as_str()).unwrap_or("")),
        Some("search") => check(args.get(2).map(|s| s.as_str()).unwrap_or("")),
        Some("replay-here") => replay(args.get(2).map(|s| s.as_str()).unwrap_or("")),
        Some("ids") => {
            use amplify::ByteArray;
            let k = kits();
            println!("{:?}\n{:?}", k.asset.iface_id().to_byte_array(), k.base.iface_id().to_byte_array());
            0
        }
        Some("run") => {
            // rgb-sim run <property> <seed>: one run with its log
            let prop = PROPS.iter().find(|p| Some(**p) == args.get(2).map(|s| s.as_str())).expect("property");
            let seed = args.get(3).and_then(|s| parse_seed(s)).expect("seed");
            let p = profile(prop).unwrap();
            let o = execute(prop, seed, &generate(&p, seed), Arc::new(kits()), true);
            for l in &o.log {
                println!("{l}");
            }
            println!("digest {:016x} viol {:?}", o.digest, o.viol);
            for (p, m) in &o.other {
                println!("other: {p} {m}");
            }
            println!("{:?}", o.stats);
            0
        }
        _ => {
            eprintln!("usage: rgb-sim check <property> | replay <file> | run <property> <seed>");
            2
        }
    }
}

pub fn parse_seed(s: &str) -> Option<u64> {
    match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => s.parse().ok(),
    }
}

fn check(id: &str) -> i32 {
    let Some(prop) = PROPS.iter().copied().find(|p| *p == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let start = Instant::now();
    let base = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let p: Profile = profile(prop).unwrap();
    let runs = env_u64("VERIF_RUNS", if thorough { p.runs.1 } else { p.runs.0 });
    let cap = Duration::from_secs(env_u64("VERIF_CAP_S", if thorough { 700 } else { 25 }));
    let workers = env_u64("VERIF_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4));
    let kits = Arc::new(kits());
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    #[derive(Default)]
    struct Acc {
        runs: u64,
        steps: u64,
        sim_s: u64,
        disk_ops: u64,
        seen: BTreeSet<u64>,
        schedules: BTreeSet<u64>,
        stats: BTreeMap<&'static str, u64>,
        faults: BTreeMap<String, u64>,
        other: BTreeMap<String, (u64, String, u64)>,
        viol: BTreeMap<u64, (u64, (String, String))>,
        repeated: u64,
        unequal: Vec<u64>,
        harness: Vec<(u64, String)>,
        known: BTreeMap<String, u64>,
        samples: Vec<String>,
    }
    let acc = Mutex::new(Acc::default());
    let findings = findings(prop);
    let flight = Flight::new(workers as usize);
    let done = AtomicU64::new(0);
    std::thread::scope(|sc| {
        sc.spawn(|| flight.watch(&done, workers));
        for no in 0..workers as usize {
            let (findings, flight, done) = (&findings, &flight, &done);
            let (acc, next, stop, kits, p) = (&acc, &next, &stop, &kits, &p);
            sc.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= runs || stop.load(Ordering::SeqCst) || start.elapsed() > cap {
                    flight.end(no);
                    done.fetch_add(1, Ordering::SeqCst);
                    break;
                }
                let seed = mix(mix(base) ^ i.wrapping_mul(0x9e37_79b9));
                let steps = generate(p, seed);
                flight.begin(no, seed);
                let o = execute(prop, seed, &steps, kits.clone(), i < 2);
                let again = (i < 16 || i % 64 == 0).then(|| execute(prop, seed, &steps, kits.clone(), false).digest);
                flight.end(no);
                let mut a = acc.lock().unwrap();
                if let Some(h) = o.harness {
                    a.harness.push((seed, h));
                    continue;
                }
                a.runs += 1;
                a.steps += o.steps;
                a.sim_s += o.sim_s as u64;
                a.disk_ops += o.disk_ops;
                if let Some(d) = again {
                    a.repeated += 1;
                    if d != o.digest {
                        a.unequal.push(seed);
                    }
                }
                let mut d = crate::rng::Digest::default();
                for s in &o.states {
                    a.seen.insert(*s);
                    d.add(&s.to_le_bytes());
                }
                a.schedules.insert(d.0);
                for (k, v) in o.stats {
                    *a.stats.entry(k).or_default() += v;
                }
                for (k, v) in o.faults {
                    *a.faults.entry(k).or_default() += v;
                }
                for (q, m) in o.other {
                    let e = a.other.entry(q).or_insert((0, m, seed));
                    e.0 += 1;
                }
                if i < 2 {
                    a.samples.push(format!("seed {seed:#x}: {}", o.log.iter().take(24).cloned().collect::<Vec<_>>().join("; ")));
                }
                if let Some(v) = o.viol {
                    if let Some(f) = findings.iter().find(|f| f.matches(&v.1)) {
                        *a.known.entry(f.what.clone()).or_default() += 1;
                        continue;
                    }
                    a.viol.insert(i, (seed, v));
                    // Runs with smaller numbers which are under way still finish
                    stop.store(true, Ordering::SeqCst);
                }
            });
        }
    });
    let a = acc.into_inner().unwrap();
    let search_s = start.elapsed().as_secs_f64();
    let mut exit = 0;
    let mut violations = vec![];
    if let Some((_, (seed, (_, msg)))) = a.viol.iter().next() {
        let steps = generate(&p, *seed);
        let (min, tries) = minimise(prop, *seed, &steps, msg, kits.clone(), Duration::from_secs(60));
        let o = execute(prop, *seed, &min, kits.clone(), true);
        let dir = format!("{}/replays", out_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{seed:016x}.replay");
        let m = o.viol.as_ref().map(|v| v.1.clone()).unwrap_or_default();
        let mut text = format!("# {m}\nproperty {prop}\nseed {seed:#x}\ndigest {:016x}\n", o.digest);
        for s in &min {
            text += &format!("step {}\n", s.text());
        }
        text += "# what happens in the run:\n";
        for l in &o.log {
            text += &format!("#   {l}\n");
        }
        let _ = std::fs::write(&path, &text);
        println!("{m}");
        println!("seed {seed:#x}: {} steps minimised to {} in {tries} executions", steps.len(), min.len());
        println!("VIOLATION property={prop} replay={path}");
        violations.push(m);
        exit = 1;
    }
    for f in &findings {
        println!("KNOWN-FINDING: property={prop} {}", f.what);
    }
    let wall = start.elapsed().as_secs_f64();
    if !a.unequal.is_empty() {
        eprintln!("{} runs were not repeatable, e.g. seed {:#x}", a.unequal.len(), a.unequal[0]);
    }
    // Evidence
    let q = json_str;
    let map = |m: &BTreeMap<String, u64>| {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", q(k))).collect::<Vec<_>>().join(", "))
    };
    let stats: BTreeMap<String, u64> = a.stats.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {base},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \
         \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \
         \"steps_executed\": {},\n  \"distinct_world_states\": {},\n  \"state_measure\": {},\n  \
         \"simulated_seconds\": {},\n  \"seeds_per_hour\": {},\n  \
         \"simulated_disk_operations\": {},\n  \"faults_injected\": {},\n  \"checks_made\": {},\n  \
         \"runs_repeated_for_determinism\": {},\n  \"runs_with_unequal_repetition\": {},\n  \"runs_without_conclusion\": {},\n  \"runs_ended_by_known_findings\": {},\n  \"met_on_the_way\": {},\n  \
         \"real_components\": {},\n  \"stub_components\": {}\n }},\n \"wall_s\": {:.2},\n \"assumptions\": [{}],\n \
         \"violations\": [{}]\n}}\n",
        q(prop),
        q(if thorough { "thorough" } else { "quick" }),
        a.runs,
        a.schedules.len(),
        q("a case is one seeded run: a list of steps (payments, deliveries, blocks, reorganisations, faults, ...) executed against fresh wallets; it counts as distinct and non-trivial if its sequence of world states differs from that of every other run"),
        a.samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "),
        a.steps,
        a.seen.len(),
        q("hash of: status and height of every witness transaction, per wallet the number of contracts, operations and revealed assignments known and the believed status of every witness, and the messages in flight"),
        a.sim_s,
        (a.runs as f64 / search_s * 3600.0) as u64,
        a.disk_ops,
        map(&a.faults),
        map(&stats),
        a.repeated,
        a.unequal.len(),
        a.harness.len(),
        map(&a.known),
        map(&a.other.iter().map(|(k, v)| (format!("{k}: {} (seed {:#x})", v.1, v.2), v.0)).collect()),
        q("rgb-std and rgb-invoice from /repo; rgb-core validator, AluVM, commitments, strict encoding; Rust std file API down to libc"),
        q("disk, clock, randomness (interposed libc symbols); network; blockchain and witness resolver; wallet coin selection and transaction building"),
        wall,
        [
            "the simulated chain, network and disk behave like real ones in the modelled respects",
            "bounded: few wallets and contracts, runs of tens of steps, a sample of all schedules"
        ]
        .iter()
        .map(|s| q(s))
        .collect::<Vec<_>>()
        .join(", "),
        violations.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "),
    );
    let dir = format!("{}/evidence", out_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{prop}.json"), ev) {
        eprintln!("can't write evidence: {e}");
        return 2;
    }
    println!(
        "{prop}: {} runs, {} steps, {} world states, {:.1} s; faults {}; checks {}",
        a.runs,
        a.steps,
        a.seen.len(),
        wall,
        map(&a.faults),
        map(&stats)
    );
    for (k, v) in &a.other {
        println!("  met on the way: {k} x{}: {} (seed {:#x})", v.0, v.1, v.2);
    }
    for (seed, m) in a.harness.iter().take(3) {
        println!("  no conclusion from seed {seed:#x}: {m}");
    }
    if exit == 0 && a.harness.len() as u64 > a.runs {
        eprintln!("most of the runs could not be completed");
        return 3;
    }
    if exit == 0 && !a.unequal.is_empty() && std::env::var("VERIF_STRICT").is_ok() {
        return 4;
    }
    exit
}

/// A defect of the unchanged tree which is known and not repaired.
pub struct Finding {
    pub shape: String,
    pub what: String,
}

impl Finding {
    pub fn matches(&self, msg: &str) -> bool { !self.shape.is_empty() && shape(msg) == self.shape }
}

/// Lines `known: property=<id> [<shape of the message>] <what fails>` of the known-findings file.
fn findings(prop: &str) -> Vec<Finding> {
    let path = format!("{}/KNOWN_FINDINGS", std::env::var("VERIF_ROOT").unwrap_or_else(|_| s!("/verif")));
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={prop} [")))
        .filter_map(|l| l.split_once("] "))
        .map(|(s, w)| Finding { shape: s.to_string(), what: w.to_string() })
        .collect()
}

/// Runs under way, noted where they survive the end of the process.
struct Flight {
    dir: Option<String>,
    since: Vec<Mutex<Option<Instant>>>,
}

impl Flight {
    fn new(workers: usize) -> Flight {
        Flight { dir: std::env::var("VERIF_FLIGHT").ok(), since: (0..workers).map(|_| Mutex::new(None)).collect() }
    }
    fn begin(&self, no: usize, seed: u64) {
        if let Some(d) = &self.dir {
            let _ = std::fs::write(format!("{d}/{no}"), format!("{seed:#x}"));
        }
        *self.since[no].lock().unwrap() = Some(Instant::now());
    }
    fn end(&self, no: usize) {
        *self.since[no].lock().unwrap() = None;
        if let Some(d) = &self.dir {
            let _ = std::fs::write(format!("{d}/{no}"), "");
        }
    }
    /// Ends the process if a run does not end.
    fn watch(&self, done: &AtomicU64, workers: u64) {
        while done.load(Ordering::SeqCst) < workers {
            std::thread::sleep(Duration::from_millis(50));
            for s in &self.since {
                if s.lock().unwrap().map(|t| t.elapsed() > Duration::from_secs(crate::guardian::HANG_S)).unwrap_or(false) {
                    eprintln!("a run does not end");
                    std::process::exit(crate::guardian::HANG);
                }
            }
        }
    }
}

pub fn out_dir() -> String { std::env::var("VERIF_OUT").unwrap_or_else(|_| s!("/verif")) }

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 0x20 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// Message with numbers and identifiers removed, to recognise the same failure during minimisation.
pub fn shape(m: &str) -> String {
    m.split(|c: char| c.is_whitespace() || c == ',' || c == ':')
        .filter(|w| !w.chars().any(|c| c.is_ascii_digit()))
        .take(12)
        .collect::<Vec<_>>()
        .join(" ")
}

fn minimise(
    prop: &'static str,
    seed: u64,
    steps: &[Step],
    msg: &str,
    kits: Arc<Kits>,
    cap: Duration,
) -> (Vec<Step>, u64) {
    let start = Instant::now();
    let want = shape(msg);
    let mut tries = 0;
    let mut fails = |s: &[Step]| {
        tries += 1;
        let o = execute(prop, seed, s, kits.clone(), false);
        o.viol.map(|v| shape(&v.1) == want).unwrap_or(false)
    };
    let mut cur = steps.to_vec();
    if !fails(&cur) {
        return (cur, tries);
    }
    let mut chunk = (cur.len() / 2).max(1);
    while start.elapsed() < cap {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() && start.elapsed() < cap {
            let mut t = cur.clone();
            t.drain(i..(i + chunk).min(cur.len()));
            if fails(&t) {
                cur = t;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    for i in 0..cur.len() {
        if cur[i].f != Fault::None && start.elapsed() < cap {
            let mut t = cur.clone();
            t[i].f = Fault::None;
            if fails(&t) {
                cur = t;
            }
        }
    }
    (cur, tries)
}

fn replay(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("can't read {path}");
        return 2;
    };
    let (mut prop, mut seed, mut digest, mut steps) = (None, 0, String::new(), vec![]);
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            prop = PROPS.iter().copied().find(|p| *p == x.trim());
        } else if let Some(x) = l.strip_prefix("seed ") {
            seed = parse_seed(x.trim()).unwrap_or(0);
        } else if let Some(x) = l.strip_prefix("digest ") {
            digest = x.trim().to_string();
        } else if let Some(x) = l.strip_prefix("step ") {
            match Step::parse(x) {
                Some(s) => steps.push(s),
                None => {
                    eprintln!("bad step: {x}");
                    return 2;
                }
            }
        }
    }
    let Some(prop) = prop else {
        eprintln!("no property in {path}");
        return 2;
    };
    let o = execute(prop, seed, &steps, Arc::new(kits()), true);
    for l in &o.log {
        println!("{l}");
    }
    println!("digest {:016x} ({})", o.digest, if format!("{:016x}", o.digest) == digest { "as recorded" } else { "differs from the record" });
    match o.viol {
        Some((p, m)) => {
            println!("{m}");
            println!("VIOLATION property={p} replay={path}");
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
