#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, unknown_lints)]
mod deep;
mod exec;
mod gen;
mod model;
mod plan;
mod pool;
mod rng;
mod seams;
mod shrink;

use exec::{run_full, RunOut, Stats, Vio};
use plan::*;
use std::collections::{BTreeMap, HashMap, BTreeSet, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

#[global_allocator]
static A: seams::SimAlloc = seams::SimAlloc;

const WORKERS: u64 = 8;

/// the violation classes that break a property
fn classes(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["alien", "unsound", "nested"],
        "C02" => &["lost", "rejected", "nested"],
        "C03" => &["precedence"],
        "C04" => &["clone_diff", "clone_leak"],
        "C05" => &["unrepeatable", "clone_leak", "nested"],
        "C06" => &["io_lost", "io_content", "io_spurious", "io_kind"],
        "C07" => &["strict_ok", "strict_err", "strict_over", "strict_wrong", "strict_short", "verdict_miss", "verdict_false", "lost", "alien"],
        "C08" => &["lenient_err", "lenient_consume", "lenient_log", "lost", "alien"],
        "C09" => &["verdict_miss", "verdict_false", "verdict_wrong", "lenient_log"],
        "C10" => &[],
        "C11" => &["fdleak", "leftover", "recover_slow", "unrepeatable", "io_spurious", "strict_err", "verdict_false", "lenient_err", "lost", "alien", "unsound"],
        "C12" => &["impl_diff"],
        "C13" => &["fmt_diff"],
        "C14" => &["meta", "rejected"],
        "C15" => &["interference", "nested"],
        "C16" => &["uuid_dup", "uuid_form", "uuid_again"],
        "C17" => &["retained", "accumulates", "fdleak", "leftover"],
        "C18" => &["environment"],
        _ => &[],
    }
}
/// the extreme inputs (deep.rs) that belong to a property
fn deep_cases(prop: &str, case: &str) -> bool {
    let file = case.starts_with("json_") || case.starts_with("yaml_");
    match prop {
        "C02" => !file,
        "C06" => file,
        "C10" => true,
        _ => false,
    }
}
const ALWAYS: &[&str] = &["panic", "hang", "crash"];

fn relevant(prop: &str, v: &Vio) -> bool {
    ALWAYS.contains(&v.class) || classes(prop).contains(&v.class)
}

/// (runs in the quick tier, runs in the thorough tier)
fn runs(prop: &str) -> (u64, u64) {
    let q = match prop {
        "C06" => 60_000,
        "C10" => 300_000,
        "C04" => 40_000,
        "C13" => 40_000,
        "C15" => 24_000,
        "C16" => 40_000,
        "C11" => 50_000,
        "C17" => 8_000,
        "C18" => 16_000,
        _ => 80_000,
    };
    (q, q * 40)
}

fn nontrivial(prop: &str, s: &Stats) -> bool {
    let g = |k: &str| s.get(k).copied().unwrap_or(0);
    let faults: u64 = s.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(_, n)| *n).sum();
    match prop {
        "C01" => g("check.sound") > 0 && g("add") + g("load") + g("source") > 1,
        "C02" => g("parse.match") > 0 && g("add") + g("load") + g("source") > 1,
        "C03" => g("probe.several_match") > 0,
        "C04" => g("clone") > 0 && g("check.repeat") > 0,
        "C05" => g("check.repeat") > 0 && faults > 0,
        "C06" => g("load") > 0 && faults > 0,
        "C07" => g("check.strict") > 0,
        "C08" => g("check.lenient") > 0 && g("probe.lenient_with_problems") > 0,
        "C09" => g("check.test_message") > 0,
        "C10" => g("parse.match") + g("parse.nomatch") + g("load") > 0,
        "C11" => g("probe.recovered") > 0,
        "C12" => g("parse.match") > 0,
        "C13" => g("check.fmt") > 0,
        "C14" => g("check.meta") > 0,
        "C15" => g("preemptions") > 0,
        "C16" => g("uuid.made") > 1,
        "C17" => g("parse.match") + g("parse.nomatch") + g("load") + g("source") > 0,
        "C18" => g("parse.match") + g("load") > 0,
        _ => false,
    }
}
fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" => "a run is one seeded history of adds, clones, loads (with harmless I/O faults), builds and parses; non-trivial when at least two patterns were put in and at least one parse was answered with a match; distinct by the hash of the whole event log (every outcome and every baton change)",
        "C03" => "as C01; non-trivial when at least one parsed message was matched by several patterns at once; distinct by event-log hash",
        "C04" => "seeded histories of clone/add/drop/parse over a family of matchers; non-trivial when a clone was taken and earlier answers were re-asked; distinct by event-log hash",
        "C05" => "seeded histories of repeated parses with cancellations, log-level changes and unrelated work in between; non-trivial when answers were re-asked and at least one fault fired; distinct by event-log hash",
        "C06" => "seeded histories of loads under I/O faults; non-trivial when at least one fault fired in a run with a load; distinct by event-log hash",
        "C07" | "C08" | "C09" => "seeded builds from faulty pattern sources and files; non-trivial when a build of the property's kind was judged (C08: with at least one problem in it); distinct by event-log hash",
        "C10" => "seeded hostile inputs: damaged files, strange messages and pattern texts; non-trivial when at least one parse or load happened; distinct by event-log hash",
        "C11" => "seeded sequences of failing or interrupted loads followed by a fault-free one; non-trivial when a load succeeded after a failed one; distinct by event-log hash",
        "C12" => "both matchers fed the same seeded history; non-trivial when at least one parse matched; distinct by event-log hash",
        "C13" => "one document written in both formats and read under different read schedules; non-trivial when both loads completed; distinct by event-log hash",
        "C14" => "as C01 with heavy metadata; non-trivial when a match with metadata was compared; distinct by event-log hash",
        "C15" => "two to four threads under a seeded schedule, each compared with its solo run; non-trivial when the schedule preempted; distinct by event-log hash (includes every baton change)",
        "C17" => "a workload of one of the other properties, with its faults, executed over and over in one process; non-trivial when it parsed, loaded or built something; distinct by event-log hash",
        "C18" => "a workload of one of the other properties, with its faults and schedule, executed again at other times, addresses, process ids and entropy; non-trivial when a parse matched or a load was made; distinct by event-log hash",
        _ => "threads drawing random ids under entropy faults; non-trivial when at least two ids were drawn; distinct by event-log hash",
    }
}

const PROPS: [&str; 18] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
];

/// What is left behind by runs of ever different content. A little may stay for good (a cache with a
/// limit), but not more and more: judged by the growth in the second quarter and the second half.
fn accumulates(kept: &[i64]) -> Option<String> {
    let n = kept.len();
    if n < 64 {
        return None;
    }
    // (bytes, how many runs left something)
    let sum = |a: usize, b: usize| (kept[a..b].iter().sum::<i64>(), kept[a..b].iter().filter(|k| **k > 0).count());
    let ((q, qn), (h, hn)) = (sum(n / 4, n / 2), sum(n / 2, n));
    if q > (n / 4) as i64 && h > (n / 2) as i64 && qn >= 4 && hn >= 4 {
        Some(format!("{} different runs in one process left {} bytes behind in the second quarter and {} in the second half, with everything dropped after each", n, q, h))
    } else {
        None
    }
}

// ------------------------------------------------------------------ scratch

/// A private directory; everything the simulated system does to files happens inside it.
fn scratch_root() -> PathBuf {
    let pid = std::process::id();
    for base in ["/dev/shm", "/tmp"] {
        let p = PathBuf::from(base).join(format!("adbsim-scratch-{}", pid));
        if std::fs::create_dir_all(&p).is_ok() && std::fs::write(p.join("t"), b"x").is_ok() {
            let _ = std::fs::remove_file(p.join("t"));
            return p;
        }
    }
    eprintln!("no scratch directory");
    std::process::exit(2);
}
fn enter(p: &Path) {
    std::fs::create_dir_all(p).unwrap();
    std::env::set_current_dir(p).unwrap();
    let c = std::env::current_dir().unwrap();
    assert!(c.to_string_lossy().contains("adbsim-scratch-"), "not in scratch");
}
fn cleanup(p: &Path) {
    if p.to_string_lossy().contains("adbsim-scratch-") {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(p);
    }
}

// ------------------------------------------------------------------ workers

static RUNNING: AtomicBool = AtomicBool::new(false);
const HANG_SECS: u64 = 40;

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = seams::PROGRESS.load(Ordering::Relaxed);
            if p != last || !RUNNING.load(Ordering::Relaxed) {
                last = p;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(HANG_SECS) {
                eprintln!("hang: no progress for {} s", HANG_SECS);
                unsafe { exit_now(77) }
            }
        }
    });
}
unsafe fn exit_now(code: i32) -> ! {
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    _exit(code)
}
fn limit_memory() {
    // 6 GB of address space per process: a runaway allocation ends the process, not the machine
    limit(6 << 30)
}
fn limit(bytes: u64) {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    }
    let l = [bytes, bytes];
    unsafe {
        setrlimit(9, &l);
    }
}

fn init_process() {
    seams::install_panic_hook();
    let _ = log::set_logger(&seams::LOG);
    limit_memory();
    RUNNING.store(true, Ordering::Relaxed);
    // warm up: one-time initialisation of std and the dependencies happens before any measured run
    let mut p = gen::gen("C15", 424242);
    p.seed = 0;
    let _ = run_full(&p);
    let p = gen::gen("C16", 424242);
    let _ = run_full(&p);
    RUNNING.store(false, Ordering::Relaxed);
}

#[derive(serde::Serialize, serde::Deserialize, Default)]
struct WorkerOut {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    stats: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    other: BTreeMap<String, u64>,
    violation: Option<(u64, u64, String, String)>,
    samples: Vec<String>,
    wall: f64,
    capped: bool,
    n_edges: u64,
    edges: Vec<u32>,
}

struct Known {
    prop: String,
    class: String,
    text: String,
    line: String,
}
fn known_findings() -> Vec<Known> {
    let p = verif_dir().join("known_findings.txt");
    let mut v = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut k = Known { prop: String::new(), class: String::new(), text: String::new(), line: l.into() };
            let mut it = r.splitn(4, ' ');
            for w in it.by_ref().take(2) {
                if let Some(x) = w.strip_prefix("property=") {
                    k.prop = x.into();
                }
                if let Some(x) = w.strip_prefix("class=") {
                    k.class = x.into();
                }
            }
            let rest: String = it.collect::<Vec<_>>().join(" ");
            if let Some(i) = rest.find("contains=<<") {
                if let Some(j) = rest[i..].find(">>") {
                    k.text = rest[i + 11..i + j].into();
                }
            }
            if !k.prop.is_empty() && !k.class.is_empty() && !k.text.is_empty() {
                v.push(k);
            }
        }
    }
    v
}
fn verif_dir() -> PathBuf {
    std::env::var("ADBSIM_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn seed_of(base: u64, i: u64) -> u64 {
    rng::mix(base.wrapping_mul(0x1_0000_0001).wrapping_add(i)) >> 1
}

fn worker(a: &[String]) {
    let prop = &a[0];
    let idx: u64 = a[1].parse().unwrap();
    let base: u64 = a[2].parse().unwrap();
    let n: u64 = a[3].parse().unwrap();
    let cap: f64 = a[4].parse().unwrap();
    let dir = PathBuf::from(&a[5]);
    enter(&dir.join(format!("w{}", idx)));
    use std::os::unix::fs::FileExt;
    let status = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join(format!("status{}", idx))).unwrap();
    let _ = status.write_at(format!("{:020} {:020}\n", 0, 424242).as_bytes(), 0);
    watchdog();
    init_process();
    let known = known_findings();
    let start = Instant::now();
    let mut o = WorkerOut::default();
    let mut hashes: Vec<u64> = Vec::new();
    // ids of the runs before: the process is the same, the threads are others
    let mut ids: HashSet<[u8; 16]> = HashSet::new();
    let stop = dir.join("stop");
    let mut stop_at = u64::MAX;
    let mut i = idx;
    let mut kept: Vec<i64> = Vec::new();
    let mut first_i = u64::MAX;
    let slow: f64 = std::env::var("ADBSIM_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0);
    while i < n && i <= stop_at {
        let seed = seed_of(base, i);
        let _ = status.write_at(format!("{:020} {:020}\n", i, seed).as_bytes(), 0);
        let plan = gen::gen(prop, seed);
        RUNNING.store(true, Ordering::Relaxed);
        let began = Instant::now();
        let r = run_full(&plan);
        RUNNING.store(false, Ordering::Relaxed);
        if slow > 0.0 && began.elapsed().as_secs_f64() > slow {
            eprintln!("slow {} {:.2} s ops {} moves {} sched {:?} {:?}", seed, began.elapsed().as_secs_f64(), count_ops(&plan), plan.moves, plan.sched, r.stats);
        }
        o.runs += 1;
        if prop == "C17" {
            // (what the second, third, fourth thread of the process sets up once is not growth)
            kept.push(if plan.threads.len() == 1 { r.kept } else { 0 });
            first_i = first_i.min(i);
        }
        o.steps += r.steps;
        for (k, n) in &r.stats {
            *o.stats.entry(k.to_string()).or_insert(0) += n;
        }
        if nontrivial(prop, &r.stats) {
            o.nontrivial += 1;
            hashes.push(r.hash);
            if o.samples.len() < 2 && o.nontrivial % 97 == 1 {
                o.samples.push(sample(&plan, &r));
            }
        }
        if prop == "C16" {
            for u in &r.uuids {
                if !ids.insert(*u) && o.violation.is_none() && r.vios.is_empty() {
                    let d: String = u.iter().map(|b| format!("{:02x}", b)).collect();
                    o.violation = Some((i, seed, "uuid_again".into(), format!("random id {} was handed out again by a later thread of the same process", d)));
                }
            }
        }
        for v in &r.vios {
            if relevant(prop, v) {
                if let Some(k) = known.iter().find(|k| k.prop == *prop && k.class == v.class && v.detail.contains(&k.text)) {
                    *o.known.entry(k.line.clone()).or_insert(0) += 1;
                    continue;
                }
                if o.violation.is_none() {
                    o.violation = Some((i, seed, v.class.to_string(), v.detail.clone()));
                }
            } else {
                if std::env::var_os("ADBSIM_OTHER").map_or(false, |c| c.to_string_lossy() == v.class) { eprintln!("other {}: seed {} {}", v.class, seed, v.detail); }
                *o.other.entry(v.class.to_string()).or_insert(0) += 1;
            }
        }
        if o.violation.is_some() {
            let _ = std::fs::write(dir.join(format!("stop.{}", idx)), i.to_string());
            let _ = std::fs::rename(dir.join(format!("stop.{}", idx)), &stop);
            break;
        }
        if o.runs % 64 == 0 {
            if start.elapsed().as_secs_f64() > cap {
                o.capped = true;
                break;
            }
            if let Ok(s) = std::fs::read_to_string(&stop) {
                stop_at = s.trim().parse().unwrap_or(u64::MAX);
            }
        }
        i += WORKERS;
    }
    if o.violation.is_none() && i >= n {
        if let Some(d) = accumulates(&kept) {
            o.violation = Some((n + first_i, seed_of(base, first_i), "accumulates".into(), d));
        }
    }
    o.wall = start.elapsed().as_secs_f64();
    let (n_edges, edges) = seams::coverage();
    o.n_edges = n_edges as u64;
    o.edges = edges;
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("hash{}", idx)), hb).unwrap();
    std::fs::write(dir.join(format!("out{}", idx)), serde_json::to_string(&o).unwrap()).unwrap();
    std::process::exit(0);
}

fn sample(p: &Plan, r: &RunOut) -> String {
    let ops: Vec<String> = p
        .threads
        .iter()
        .map(|t| {
            let v: Vec<String> = t.iter().take(10).map(|o| short(&format!("{:?}", o), 260)).collect();
            format!("{} ops: {}", t.len(), v.join("; "))
        })
        .collect();
    format!("seed {} log={} threads=[{}] baton changes={:?} stats={:?}", p.seed, p.log, ops.join(" || "), r.switches.iter().take(12).collect::<Vec<_>>(), r.stats)
}
fn short(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        s.chars().take(n).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}

// ------------------------------------------------------------------ parent

#[derive(serde::Serialize, serde::Deserialize)]
struct Replay {
    property: String,
    class: String,
    detail: String,
    seed: u64,
    original_ops: usize,
    minimised_ops: usize,
    shrink_runs: usize,
    /// seeds of the runs to execute first in the same process (state of the process matters)
    #[serde(default)]
    prelude: Vec<u64>,
    /// an extreme input: (case, size)
    #[serde(default)]
    deep: Option<(String, usize)>,
    /// number of process lives whose ids are put together
    #[serde(default)]
    lives: u64,
    /// threads of one process that draw one id each
    #[serde(default)]
    crowd: Vec<u64>,
    #[serde(default)]
    plan: Option<Plan>,
}

fn count_ops(p: &Plan) -> usize {
    p.init.len() + p.threads.iter().map(|t| t.len()).sum::<usize>()
}

fn check(prop: &str, tier: &str) -> i32 {
    if !PROPS.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let start = Instant::now();
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (q, t) = runs(prop);
    let (n, cap) = if tier == "thorough" { (t, 2400.0) } else { (q, 400.0) };
    let n = std::env::var("ADBSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(n);
    println!("check {} tier={} VERIF_SEED={} runs={}", prop, tier, vseed, n);
    let root = scratch_root();
    let exe = std::env::current_exe().unwrap();
    let mut kids = Vec::new();
    for w in 0..WORKERS {
        let c = Command::new(&exe)
            .arg("worker")
            .args([prop, &w.to_string(), &vseed.to_string(), &n.to_string(), &cap.to_string(), root.to_str().unwrap()])
            .spawn()
            .expect("spawn worker");
        kids.push(c);
    }
    // (index, seed, class, detail)
    let mut found: Vec<(u64, u64, String, String)> = Vec::new();
    let mut outs: Vec<WorkerOut> = Vec::new();
    let mut broken = false;
    for (w, mut k) in kids.into_iter().enumerate() {
        let st = k.wait().unwrap();
        let of = root.join(format!("out{}", w));
        if st.success() && of.exists() {
            let o: WorkerOut = serde_json::from_str(&std::fs::read_to_string(of).unwrap()).unwrap();
            if let Some(v) = &o.violation {
                found.push(v.clone());
            }
            outs.push(o);
        } else {
            use std::os::unix::process::ExitStatusExt;
            let s = std::fs::read_to_string(root.join(format!("status{}", w))).unwrap_or_default();
            let mut it = s.split_whitespace().map(|x| x.parse::<u64>().unwrap_or(0));
            let (i, seed) = (it.next().unwrap_or(0), it.next().unwrap_or(0));
            if s.is_empty() {
                eprintln!("worker {} failed to start: {:?}", w, st);
                broken = true;
            } else if st.code() == Some(77) {
                found.push((i, seed, "hang".into(), format!("no progress for {} s", HANG_SECS)));
                let _ = std::fs::write(root.join("stop"), i.to_string());
            } else if st.signal() == Some(9) || st.signal().is_none() {
                // killed from outside, or a panic of the simulator itself
                eprintln!("worker {} ended with {:?} at index {} seed {}", w, st, i, seed);
                broken = true;
            } else {
                found.push((i, seed, "crash".into(), format!("the process died: {:?}", st)));
                let _ = std::fs::write(root.join("stop"), i.to_string());
            }
        }
    }
    let mut code = 0;
    found.sort();
    let mut extra = Extra::default();
    if found.is_empty() && !broken {
        deep_stage(prop, tier, vseed, &root, &mut extra);
        if prop == "C18" && extra.bad.is_none() {
            elsewhere_stage(tier, vseed, &root, &mut extra);
        }
        if prop == "C16" && extra.bad.is_none() {
            lives_stage(tier, vseed, &root, &mut extra);
            if extra.bad.is_none() {
                crowd_stage(tier, vseed, &root, &mut extra);
            }
        }
    }
    if let Some(rp) = &extra.bad {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", prop, rp.deep.as_ref().map(|d| format!("{}-{}", d.0, d.1)).unwrap_or(format!("{}-{}", if rp.class == "environment" { "elsewhere" } else if rp.crowd.is_empty() { "lives" } else { "crowd" }, rp.seed))));
        std::fs::write(&path, serde_json::to_string_pretty(rp).unwrap()).unwrap();
        println!("violation class={}: {}", rp.class, rp.detail);
        println!("VIOLATION property={} replay={}", prop, path.display());
        code = 1;
    }
    if let Some((i, seed, class, detail)) = found.first().cloned() {
        let r = report(prop, vseed, i, seed, &class, &detail, &root);
        match r {
            Ok(path) => {
                println!("VIOLATION property={} replay={}", prop, path.display());
                code = 1;
            }
            Err(e) => {
                eprintln!("harness error: {}", e);
                code = 2;
            }
        }
    } else if broken {
        code = 2;
    }
    let wall = start.elapsed().as_secs_f64();
    evidence(prop, tier, vseed, &outs, &found, &extra, wall, &root);
    cleanup(&root);
    code
}

fn has_class(r: &RunOut, prop: &str, class: &str) -> Option<Vio> {
    r.vios.iter().find(|v| v.class == class && relevant(prop, v)).cloned()
}

fn report(prop: &str, vseed: u64, index: u64, seed: u64, class: &str, detail: &str, root: &Path) -> Result<PathBuf, String> {
    println!("violation class={} seed={}: {}", class, seed, short(detail, 1200));
    let plan = gen::gen(prop, seed);
    if class == "accumulates" {
        return report_accumulation(prop, vseed, seed, detail);
    }
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join(format!("{}-{}.json", prop, seed));
    let exe = std::env::current_exe().unwrap();
    let write = |p: &Plan, d: &str, runs: usize, prelude: &[u64]| {
        let r = Replay {
            property: prop.into(),
            class: class.into(),
            detail: d.into(),
            seed,
            original_ops: count_ops(&plan),
            minimised_ops: count_ops(p),
            shrink_runs: runs,
            prelude: prelude.to_vec(),
            deep: None,
            lives: 0,
                crowd: vec![],
            plan: Some(p.clone()),
        };
        let mut f = std::fs::File::create(&path).unwrap();
        f.write_all(serde_json::to_string_pretty(&r).unwrap().as_bytes()).unwrap();
    };
    let sub = |p: &Plan| -> bool {
        let f = root.join("cand.json");
        std::fs::write(&f, serde_json::to_string(p).unwrap()).unwrap();
        let st = Command::new(&exe).arg("runplan").arg(&f).arg(class).stderr(std::process::Stdio::null()).status();
        match st {
            Ok(s) => {
                if class == "hang" {
                    s.code() == Some(77)
                } else if class == "crash" {
                    s.code().is_none()
                } else {
                    s.code() == Some(1)
                }
            }
            Err(_) => false,
        }
    };
    let (best, runs, det) = if class == "crash" || class == "hang" {
        let (b, r) = shrink::shrink(&plan, &mut |p| sub(p), if class == "hang" { 4 } else { 300 }, 120);
        (b, r, detail.to_string())
    } else {
        enter(&root.join("shrink"));
        init_process();
        let r = run_full(&plan);
        if has_class(&r, prop, class).is_none() {
            // something the process remembered from the runs before it
            return Ok(with_history(&path, prop, vseed, index, &exe, &mut |pre| write(&plan, detail, 0, pre)));
        }
        // fix the schedule first
        let mut p = plan.clone();
        if p.threads.len() > 1 {
            p.sched = SchedPlan::Explicit(r.switches.clone());
            if has_class(&run_full(&p), prop, class).is_none() {
                p = plan.clone();
            }
        }
        let (b, n) = shrink::shrink(&p, &mut |p| has_class(&run_full(p), prop, class).is_some(), 4000, 60);
        let d = has_class(&run_full(&b), prop, class).map(|v| v.detail).unwrap_or(detail.into());
        (b, n, d)
    };
    write(&best, &det, runs, &[]);
    // a fresh process must reproduce it
    let st = Command::new(&exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).status().map_err(|e| e.to_string())?;
    if st.code() != Some(1) {
        write(&plan, detail, 0, &[]);
        let st = Command::new(&exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).status().map_err(|e| e.to_string())?;
        if st.code() != Some(1) {
            return Ok(with_history(&path, prop, vseed, index, &exe, &mut |pre| write(&plan, detail, 0, pre)));
        }
    }
    println!("minimised from {} to {} operations in {} runs: {}", count_ops(&plan), count_ops(&best), runs, short(&det, 1500));
    Ok(path)
}

/// The shortest sequence of runs (in steps of two) that shows the accumulation.
fn report_accumulation(prop: &str, vseed: u64, first: u64, detail: &str) -> Result<PathBuf, String> {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join(format!("{}-{}.json", prop, first));
    let exe = std::env::current_exe().unwrap();
    let w = (0..WORKERS).find(|w| seed_of(vseed, *w) == first).unwrap_or(0);
    let (all, _) = runs(prop);
    let mut n = 64;
    loop {
        let seeds: Vec<u64> = (0..n).map(|k| seed_of(vseed, w + k * WORKERS)).collect();
        let r = Replay {
            property: prop.into(),
            class: "accumulates".into(),
            detail: detail.into(),
            seed: first,
            original_ops: (all / WORKERS) as usize,
            minimised_ops: n as usize,
            shrink_runs: 0,
            prelude: seeds,
            deep: None,
            lives: 0,
            crowd: vec![],
            plan: None,
        };
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).map_err(|e| e.to_string())?;
        let st = Command::new(&exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).status().map_err(|e| e.to_string())?;
        if st.code() == Some(1) || n >= all / WORKERS {
            println!("shown by a sequence of {} runs", n);
            return Ok(path);
        }
        n = (n * 2).min(all / WORKERS);
    }
}

/// The violation needs what earlier runs left in the process: find how many of them.
fn with_history(path: &Path, prop: &str, vseed: u64, index: u64, exe: &Path, write: &mut dyn FnMut(&[u64])) -> PathBuf {
    let all: Vec<u64> = (0..).map(|k| index % WORKERS + k * WORKERS).take_while(|i| *i < index).map(|i| seed_of(vseed, i)).collect();
    let mut try_it = |pre: &[u64]| -> bool {
        write(pre);
        let st = Command::new(exe).arg("replay").arg(path).stdout(std::process::Stdio::null()).status();
        st.map_or(false, |s| s.code() == Some(1))
    };
    let start = Instant::now();
    let mut k = 1;
    let mut best: Option<Vec<u64>> = None;
    loop {
        let n = k.min(all.len());
        if try_it(&all[all.len() - n..]) {
            best = Some(all[all.len() - n..].to_vec());
            break;
        }
        if n == all.len() || start.elapsed() > Duration::from_secs(150) {
            break;
        }
        k *= 4;
    }
    match best {
        Some(mut b) => {
            // drop what is not needed, in ever smaller pieces
            let mut chunk = (b.len() / 2).max(1);
            while start.elapsed() < Duration::from_secs(200) {
                let mut i = 0;
                while i < b.len() && start.elapsed() < Duration::from_secs(200) {
                    let mut c = b.clone();
                    c.drain(i..(i + chunk).min(b.len()));
                    if try_it(&c) {
                        b = c;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
            write(&b);
            println!("{}: needs the {} runs before it in the same process", prop, b.len());
        }
        None => {
            write(&all);
            println!("{}: the replay file holds the worker's whole history of {} runs; replaying it did not show the violation again", prop, all.len());
        }
    }
    path.to_path_buf()
}

// ------------------------------------------------------------------ extreme inputs, several lives

#[derive(Default)]
struct Extra {
    bad: Option<Replay>,
    deep_runs: u64,
    lives: u64,
    ids: u64,
    crowd: u64,
    elsewhere: u64,
    known: BTreeMap<String, u64>,
}

/// Some((class, detail)) when the case went wrong
fn run_deep(case: &str, n: usize, dir: &Path) -> Option<(&'static str, String)> {
    use std::os::unix::process::ExitStatusExt;
    let out = dir.join(format!("deep-{}-{}.out", case, n));
    let mut c = match Command::new(std::env::current_exe().unwrap())
        .args(["deep", case, &n.to_string()])
        .arg(dir)
        .stdout(std::fs::File::create(&out).unwrap())
        .stderr(std::process::Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            eprintln!("deep {}: {}", case, e);
            return None;
        }
    };
    let start = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                let said = std::fs::read_to_string(&out).unwrap_or_default();
                return match st.code() {
                    Some(0) => None,
                    Some(3) => Some(("deep_wrong", format!("extreme input {} {}: {}", case, n, said.trim()))),
                    Some(4) => Some(("panic", format!("extreme input {} {}: the library panicked", case, n))),
                    _ => Some(("crash", format!("extreme input {} {}: the process died (signal {:?})", case, n, st.signal()))),
                };
            }
            Ok(None) => {
                if start.elapsed() > Duration::from_secs(120) {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Some(("hang", format!("extreme input {} {}: no answer in 120 s", case, n)));
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            Err(_) => return None,
        }
    }
}
fn deep_relevant(prop: &str, class: &str) -> bool {
    if class == "deep_wrong" {
        prop != "C10"
    } else {
        true
    }
}

fn deep_stage(prop: &str, tier: &str, vseed: u64, root: &Path, x: &mut Extra) {
    let rounds = if tier == "thorough" { 12 } else { 2 };
    let mut todo: Vec<(&str, usize)> = deep::sizes(vseed, rounds).into_iter().filter(|(c, _)| deep_cases(prop, c)).collect();
    if todo.is_empty() {
        return;
    }
    if prop == "C10" {
        todo.extend(deep::BEYOND.iter().cloned());
    }
    let known = known_findings();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results: Vec<std::sync::Mutex<Option<(&'static str, String)>>> = todo.iter().map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (next, results, todo) = (&next, &results, &todo);
            let dir = root.join(format!("deep{}", w));
            let _ = std::fs::create_dir_all(&dir);
            s.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= todo.len() {
                    break;
                }
                let r = run_deep(todo[i].0, todo[i].1, &dir);
                *results[i].lock().unwrap() = r;
            });
        }
    });
    x.deep_runs = todo.len() as u64;
    for (i, r) in results.into_iter().enumerate() {
        if let Some((class, detail)) = r.into_inner().unwrap() {
            if !deep_relevant(prop, class) {
                continue;
            }
            if let Some(k) = known.iter().find(|k| k.prop == prop && k.class == class && detail.contains(&k.text)) {
                *x.known.entry(k.line.clone()).or_insert(0) += 1;
                continue;
            }
            if x.bad.is_some() {
                continue;
            }
            // the smallest size that still fails
            let (case, mut hi) = todo[i];
            let mut lo = 0;
            let mut det = detail;
            let start = Instant::now();
            while hi - lo > 1 + hi / 50 && start.elapsed() < Duration::from_secs(60) && class != "hang" {
                let mid = lo + (hi - lo) / 2;
                match run_deep(case, mid, root) {
                    Some((c, d)) if c == class => {
                        hi = mid;
                        det = d;
                    }
                    _ => lo = mid,
                }
            }
            x.bad = Some(Replay {
                property: prop.into(),
                class: class.into(),
                detail: det,
                seed: vseed,
                original_ops: 1,
                minimised_ops: 1,
                shrink_runs: 0,
                prelude: vec![],
                deep: Some((case.to_string(), hi)),
                lives: 0,
                crowd: vec![],
                plan: None,
            });
        }
    }
}

/// prints the outcome of every operation of `n` runs, hashed per thread
fn outcomes(a: &[String]) {
    let seed: u64 = a[0].parse().unwrap();
    let n: u64 = a[1].parse().unwrap();
    enter(Path::new(&a[2]));
    init_process();
    for i in 0..n {
        let s = if n == 1 { seed } else { seed_of(seed, i) };
        let mut p = gen::gen("C18", s);
        p.prop = "C05".into();
        let r = run_full(&p);
        println!("{} {:?}", s, r.outs);
    }
}

/// The same runs in two processes with different environments, working directories and address
/// layouts: (seed, what differed)
fn run_elsewhere(seed: u64, n: u64, root: &Path) -> Option<(u64, String)> {
    let exe = std::env::current_exe().unwrap();
    let mk = |k: usize| {
        let mut c = Command::new(&exe);
        let d = if k == 0 { root.join("here") } else { root.join("there").join("deeper down é").join("x".repeat(60)) };
        c.arg("outcomes").arg(seed.to_string()).arg(n.to_string()).arg(&d).stdout(std::process::Stdio::piped());
        if k == 1 {
            // ADBSIM_STEADY: do not switch address randomisation off
            c.env_clear()
                .env("ADBSIM_STEADY", "1")
                .env("LANG", "tr_TR.UTF-8")
                .env("LC_ALL", "tr_TR.UTF-8")
                .env("TZ", "Pacific/Kiritimati")
                .env("RUST_LOG", "trace")
                .env("RUST_BACKTRACE", "full")
                .env("DEBUG", "1")
                .env("HOME", "/nonexistent")
                .env("TMPDIR", "/nonexistent")
                .env("USER", "somebody else");
        }
        c.spawn().expect("spawn")
    };
    let (a, b) = (mk(0), mk(1));
    let (a, b) = (a.wait_with_output().unwrap(), b.wait_with_output().unwrap());
    if a.status.code() != b.status.code() {
        return Some((seed, format!("one process ended with {:?}, the other with {:?}", a.status, b.status)));
    }
    let (a, b) = (String::from_utf8_lossy(&a.stdout).to_string(), String::from_utf8_lossy(&b.stdout).to_string());
    let bad = a.lines().zip(b.lines()).find(|(x, y)| x != y).map(|(x, _)| x.to_string());
    bad.map(|x| {
        let s = x.split(' ').next().and_then(|s| s.parse().ok()).unwrap_or(seed);
        (s, format!("the run of seed {} has different outcomes in a process with another environment, working directory and address layout", s))
    })
}

fn elsewhere_stage(tier: &str, vseed: u64, root: &Path, x: &mut Extra) {
    let (n, w) = if tier == "thorough" { (20_000, 4) } else { (1_500, 4) };
    let results: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..w).map(|k| {
            let d = root.join(format!("else{}", k));
            s.spawn(move || run_elsewhere(rng::mix(vseed ^ 0xe15e ^ ((k as u64) << 32)) >> 1, n, &d))
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    x.elsewhere = n * w;
    if let Some((seed, detail)) = results.into_iter().flatten().next() {
        x.bad = Some(Replay {
            property: "C18".into(),
            class: "environment".into(),
            detail,
            seed,
            original_ops: 1,
            minimised_ops: 1,
            shrink_runs: 0,
            prelude: vec![],
            deep: None,
            lives: 0,
            crowd: vec![],
            plan: None,
        });
    }
}

/// One life of a process: draws ids as the plan says, prints them
fn life(seed: u64, k: u64) {
    let mut p = gen::gen("C16", seed);
    // different entropy, but the same clock and process id as in every other life
    p.entropy = rng::mix(p.entropy ^ rng::mix(k + 1)) | 1;
    let r = run_full(&p);
    let mut s = String::new();
    for u in &r.uuids {
        for b in u {
            s.push_str(&format!("{:02x}", b));
        }
        s.push('\n');
    }
    print!("{}", s);
}

/// Some(detail) when an id appears twice in several lives
fn run_lives(seed: u64, n: u64, root: &Path, ids: &mut u64) -> Option<String> {
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    for k in 0..n {
        let o = match Command::new(std::env::current_exe().unwrap()).args(["life", &seed.to_string(), &k.to_string()]).arg(root).output() {
            Ok(o) if o.status.success() => o,
            _ => continue,
        };
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            *ids += 1;
            if let Some(j) = seen.insert(l.to_string(), k) {
                return Some(format!("random id {} was handed out by process lives {} and {}", l, j, k));
            }
        }
    }
    None
}

/// Very many threads of one process, one after the other, each drawing its first id.
/// Prints the numbers of two threads that got the same one.
fn crowd(seed: u64, which: &mut dyn Iterator<Item = u64>) {
    let mut seen: HashMap<[u8; 16], u64> = HashMap::new();
    for i in which {
        let id = std::thread::spawn(move || {
            seams::thread_begin(0, rng::mix(seed ^ rng::mix(i + 1)) | 1, 0);
            let r = seams::lib(None, || {
                let mut b = [0u8; 16];
                b.copy_from_slice(actiondb::matcher::Pattern::with_random_uuid().uuid().as_bytes());
                b
            });
            seams::thread_end();
            r.ok()
        })
        .join()
        .ok()
        .and_then(|x| x);
        if let Some(id) = id {
            if let Some(j) = seen.insert(id, i) {
                println!("{} {}", j, i);
                return;
            }
        }
    }
}
fn run_crowd(seed: u64, which: &[u64], dir: &Path) -> Option<(u64, u64)> {
    let a: Vec<String> = which.iter().map(|x| x.to_string()).collect();
    let o = Command::new(std::env::current_exe().unwrap()).arg("crowd").arg(seed.to_string()).arg(dir).args(a).output().ok()?;
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    let mut w = t.split_whitespace().filter_map(|x| x.parse().ok());
    Some((w.next()?, w.next()?))
}

fn crowd_stage(tier: &str, vseed: u64, root: &Path, x: &mut Extra) {
    let (rounds, n) = if tier == "thorough" { (16, 1_000_000u64) } else { (1, 250_000) };
    for k in 0..rounds {
        let seed = seed_of(vseed ^ 0xc0d, k);
        x.crowd += n;
        if let Some((i, j)) = run_crowd(seed, &[n], root) {
            let two = if run_crowd(seed, &[0, i, j], root).is_some() { vec![0, i, j] } else { vec![j + 1] };
            x.bad = Some(Replay {
                property: "C16".into(),
                class: "uuid_dup".into(),
                detail: format!("two threads of one process (the {}th and the {}th) were given the same random id", i, j),
                seed,
                original_ops: n as usize,
                minimised_ops: if two.len() == 3 { 2 } else { j as usize + 1 },
                shrink_runs: 1,
                prelude: vec![],
                deep: None,
                lives: 0,
                crowd: two,
                plan: None,
            });
            return;
        }
    }
}

fn lives_stage(tier: &str, vseed: u64, root: &Path, x: &mut Extra) {
    let groups: u64 = if tier == "thorough" { 2000 } else { 64 };
    let next = std::sync::atomic::AtomicU64::new(0);
    let bad: std::sync::Mutex<Vec<(u64, u64, String)>> = std::sync::Mutex::new(vec![]);
    let ids = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (next, bad, ids) = (&next, &bad, &ids);
            let dir = root.join(format!("life{}", w));
            let _ = std::fs::create_dir_all(&dir);
            s.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= groups || !bad.lock().unwrap().is_empty() {
                    break;
                }
                let seed = seed_of(vseed ^ 0x11fe, i);
                let mut n = 0;
                if let Some(d) = run_lives(seed, 3, &dir, &mut n) {
                    bad.lock().unwrap().push((i, seed, d));
                }
                ids.fetch_add(n, Ordering::SeqCst);
            });
        }
    });
    x.lives = groups * 3;
    x.ids = ids.load(Ordering::SeqCst);
    let mut b = bad.into_inner().unwrap();
    b.sort();
    if let Some((_, seed, d)) = b.into_iter().next() {
        x.bad = Some(Replay {
            property: "C16".into(),
            class: "uuid_dup".into(),
            detail: d,
            seed,
            original_ops: 1,
            minimised_ops: 1,
            shrink_runs: 0,
            prelude: vec![],
            deep: None,
            lives: 3,
            crowd: vec![],
            plan: None,
        });
    }
}

fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let r: Replay = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let abs = std::fs::canonicalize(file).unwrap_or_else(|_| PathBuf::from(file));
    if let Some((case, n)) = &r.deep {
        let root = scratch_root();
        let o = run_deep(case, *n, &root);
        cleanup(&root);
        return match o {
            Some((c, d)) if c == r.class => {
                println!("{}", d);
                println!("VIOLATION property={} replay={}", r.property, abs.display());
                1
            }
            _ => {
                println!("not reproduced");
                0
            }
        };
    }
    if r.lives > 0 {
        let root = scratch_root();
        let mut n = 0;
        let o = run_lives(r.seed, r.lives, &root, &mut n);
        cleanup(&root);
        return match o {
            Some(d) => {
                println!("{}", d);
                println!("VIOLATION property={} replay={}", r.property, abs.display());
                1
            }
            None => {
                println!("not reproduced");
                0
            }
        };
    }
    if !r.crowd.is_empty() {
        let root = scratch_root();
        let o = run_crowd(r.seed, &r.crowd, &root);
        cleanup(&root);
        return match o {
            Some(_) => {
                println!("{}", r.detail);
                println!("VIOLATION property={} replay={}", r.property, abs.display());
                1
            }
            None => {
                println!("not reproduced");
                0
            }
        };
    }
    if r.class == "environment" && r.plan.is_none() {
        let root = scratch_root();
        let o = run_elsewhere(r.seed, 1, &root);
        cleanup(&root);
        return match o {
            Some((_, d)) => {
                println!("{}", d);
                println!("VIOLATION property={} replay={}", r.property, abs.display());
                1
            }
            None => {
                println!("not reproduced");
                0
            }
        };
    }
    if r.class == "accumulates" {
        let root = scratch_root();
        enter(&root.join("replay"));
        init_process();
        let kept: Vec<i64> = r.prelude.iter().map(|s| gen::gen(&r.property, *s)).map(|p| if p.threads.len() == 1 { exec::kept(&p) } else { 0 * exec::kept(&p) }).collect();
        cleanup(&root);
        return match accumulates(&kept) {
            Some(d) => {
                println!("{}", d);
                println!("VIOLATION property={} replay={}", r.property, abs.display());
                1
            }
            None => {
                println!("not reproduced: {} bytes after {} runs", kept.iter().sum::<i64>(), kept.len());
                0
            }
        };
    }
    let plan = match &r.plan {
        Some(p) => p.clone(),
        None => {
            eprintln!("{}: no plan", file);
            return 2;
        }
    };
    if r.class == "crash" || r.class == "hang" {
        let root = scratch_root();
        let f = root.join("cand.json");
        std::fs::write(&f, serde_json::to_string(&plan).unwrap()).unwrap();
        let st = Command::new(std::env::current_exe().unwrap()).arg("runplan").arg(&f).arg(&r.class).arg(&abs).status().unwrap();
        cleanup(&root);
        let bad = if r.class == "hang" { st.code() == Some(77) } else { st.code().is_none() };
        if bad {
            println!("VIOLATION property={} replay={}", r.property, abs.display());
            return 1;
        }
        println!("not reproduced");
        return 0;
    }
    let root = scratch_root();
    enter(&root.join("replay"));
    init_process();
    let mut ids: HashSet<[u8; 16]> = HashSet::new();
    for s in &r.prelude {
        ids.extend(run_full(&gen::gen(&r.property, *s)).uuids);
    }
    let mut out = run_full(&plan);
    if r.class == "uuid_again" && out.uuids.iter().any(|u| ids.contains(u)) {
        out.vios.push(Vio { class: "uuid_again", detail: r.detail.clone(), thread: 0, op: 0 });
    }
    cleanup(&root);
    for v in &out.vios {
        println!("thread {} op {} {}: {}", v.thread, v.op, v.class, v.detail);
    }
    println!("event log hash {:016x}, baton changes {:?}", out.hash, out.switches);
    if has_class(&out, &r.property, &r.class).is_some() {
        println!("VIOLATION property={} replay={}", r.property, abs.display());
        1
    } else {
        println!("not reproduced");
        0
    }
}

fn evidence(prop: &str, tier: &str, vseed: u64, outs: &[WorkerOut], found: &[(u64, u64, String, String)], extra: &Extra, wall: f64, root: &Path) {
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = extra.known.clone();
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut nt, mut steps) = (0, 0, 0);
    let mut samples = Vec::new();
    let mut capped = false;
    for o in outs {
        runs += o.runs;
        nt += o.nontrivial;
        steps += o.steps;
        capped |= o.capped;
        for (k, n) in &o.stats {
            *stats.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &o.known {
            *known.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &o.other {
            *other.entry(k.clone()).or_insert(0) += n;
        }
        if samples.len() < 3 {
            samples.extend(o.samples.iter().take(1).cloned());
        }
    }
    let edges: HashSet<u32> = outs.iter().flat_map(|o| o.edges.iter().copied()).collect();
    let n_edges = outs.iter().map(|o| o.n_edges).max().unwrap_or(0);
    let mut distinct: HashSet<u64> = HashSet::new();
    for w in 0..WORKERS {
        if let Ok(b) = std::fs::read(root.join(format!("hash{}", w))) {
            for c in b.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    for (k, n) in &known {
        let what = k.split_once("contains=<<").and_then(|x| x.1.split_once(">>")).map(|(a, b)| format!("[{}]{}", a.trim_end_matches(':'), b)).unwrap_or(k.clone());
        println!("KNOWN-FINDING: property={} {} ({} times in this run)", prop, what, n);
    }
    let faults: BTreeMap<String, u64> = stats.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, n)| (k[6..].to_string(), *n)).collect();
    let probes: BTreeMap<String, u64> =
        stats.iter().filter(|(k, _)| !k.starts_with("fault.") && !k.starts_with("yield.")).map(|(k, n)| (k.clone(), *n)).collect();
    let yields: BTreeMap<String, u64> = stats.iter().filter(|(k, _)| k.starts_with("yield.")).map(|(k, n)| (k[6..].to_string(), *n)).collect();
    let e = serde_json::json!({
        "property": prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": vseed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct.len(),
            "nontrivial_runs": nt,
            "rule": rule(prop),
            "samples": samples,
            "runs_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "seeds": format!("one seed per run, derived from VERIF_SEED={} and the run index 0..{}", vseed, runs),
            "simulated_time": {
                "explanation": "a simulated clock (1 ms per operation plus injected jumps) is all the library can read; the current tree reads none and sets no timer",
                "seconds": stats.get("sim.ms").copied().unwrap_or(0) as f64 / 1000.0,
                "clock_readings_by_the_library": stats.get("clock.reads_by_library").copied().unwrap_or(0),
                "scheduler_steps": steps
            },
            "faults_injected": faults,
            "observations": probes,
            "yield_points": yields,
            "library_branches": { "instrumented": n_edges, "reached": edges.len(), "what": "branch targets in the compiled library, including instances of generic code nothing calls and branches only a panic takes" },
            "interleavings_measure": "event-log hash: every operation outcome plus every (step, thread) baton change",
            "extreme_inputs_in_own_process": extra.deep_runs,
            "process_lives": extra.lives,
            "threads_drawing_one_id_each": extra.crowd,
            "runs_repeated_in_another_process": extra.elsewhere,
            "ids_compared_across_lives": extra.ids,
            "stopped_by_time_cap": capped,
            "differences_outside_this_claim": { "counts": other, "what": "verdicts of the other oracles on these runs; this property's runs include hand-made token sequences (adjacent or empty literals) for which precedence and equality of the two matchers are not claimed" },
            "real_components": ["all of actiondb (unmodified, compiled from /repo's working tree)", "serde_json/serde_yaml/yaml-rust", "uuid/rand", "std file and thread code down to the libc entry points"],
            "stubbed_components": ["thread scheduling (one baton, seeded)", "outcome of open/read system calls", "getrandom", "log sink", "pattern sources and one user-defined parser (simulation participants)"]
        },
        "assumptions": ["the reference model in sim/src/model.rs states the intended meaning of patterns", "sampling: a clean batch is evidence, not proof"],
        "wall_s": wall,
        "violations": found.len() + extra.bad.iter().count(),
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&e).unwrap()).unwrap();
    println!(
        "{}: {} runs, {} distinct non-trivial, {:.1} s, faults {:?}, other classes {:?}",
        prop,
        runs,
        distinct.len(),
        wall,
        faults,
        other
    );
}

// ------------------------------------------------------------------ determinism

/// prints one line per (property, seed): the event log hash. Two processes must print the same.
fn determinism(a: &[String]) {
    let n: u64 = a[0].parse().unwrap();
    let base: u64 = a[1].parse().unwrap();
    let root = scratch_root();
    enter(&root.join("d"));
    init_process();
    for p in PROPS {
        for i in 0..n {
            let seed = seed_of(base, i);
            let r = run_full(&gen::gen(p, seed));
            println!("{} {} {:016x} {} {}", p, seed, r.hash, r.steps, r.switches.len());
        }
    }
    cleanup(&root);
}

/// Without address randomisation two processes with the same seed also agree on addresses.
/// Where the sandbox forbids it, things go on with randomised ones.
fn steady_addresses() {
    extern "C" {
        fn personality(p: u64) -> i32;
    }
    if std::env::var_os("ADBSIM_STEADY").is_some() {
        return;
    }
    unsafe {
        let p = personality(0xffffffff);
        if p < 0 || p & 0x0040000 != 0 || personality(p as u64 | 0x0040000) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    if let Ok(exe) = std::env::current_exe() {
        let _ = Command::new(exe).args(std::env::args_os().skip(1)).env("ADBSIM_STEADY", "1").exec();
    }
}

fn main() {
    steady_addresses();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick")),
        Some("worker") => {
            worker(&a[2..]);
            0
        }
        Some("replay") => replay(&a[2]),
        Some("runplan") => {
            let p: Plan = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let root = scratch_root();
            enter(&root.join("r"));
            watchdog();
            init_process();
            RUNNING.store(true, Ordering::Relaxed);
            if let Some(rp) = a.get(4).and_then(|f| std::fs::read_to_string(f).ok()).and_then(|t| serde_json::from_str::<Replay>(&t).ok()) {
                for s in &rp.prelude {
                    let _ = run_full(&gen::gen(&rp.property, *s));
                }
            }
            let r = run_full(&p);
            cleanup(&root);
            if has_class(&r, &p.prop, &a[3]).is_some() {
                1
            } else {
                0
            }
        }
        Some("gen") => {
            println!("{}", serde_json::to_string_pretty(&gen::gen(&a[2], a[3].parse().unwrap())).unwrap());
            0
        }
        Some("seed") => {
            // run one seed and show everything
            let root = scratch_root();
            enter(&root.join("s"));
            init_process();
            let r = run_full(&gen::gen(&a[2], a[3].parse().unwrap()));
            cleanup(&root);
            for v in &r.vios {
                println!("thread {} op {} {}: {}", v.thread, v.op, v.class, v.detail);
            }
            println!("hash {:016x} stats {:?}", r.hash, r.stats);
            0
        }
        Some("deep") => {
            enter(Path::new(&a[4]));
            limit(1500 << 20);
            seams::install_panic_hook();
            deep::child(&a[2], a[3].parse().unwrap())
        }
        Some("outcomes") => {
            outcomes(&a[2..]);
            0
        }
        Some("life") => {
            enter(Path::new(&a[4]));
            seams::install_panic_hook();
            let _ = log::set_logger(&seams::LOG);
            limit_memory();
            life(a[2].parse().unwrap(), a[3].parse().unwrap());
            0
        }
        Some("crowd") => {
            enter(Path::new(&a[3]));
            seams::install_panic_hook();
            let _ = log::set_logger(&seams::LOG);
            limit_memory();
            let w: Vec<u64> = a[4..].iter().map(|x| x.parse().unwrap()).collect();
            if w.len() == 1 {
                crowd(a[2].parse().unwrap(), &mut (0..w[0]));
            } else {
                crowd(a[2].parse().unwrap(), &mut w[1..].iter().cloned());
            }
            0
        }
        Some("determinism") => {
            determinism(&a[2..]);
            0
        }
        _ => {
            eprintln!("usage: adbsim check <property> <quick|thorough> | replay <file> | determinism <n> <seed>");
            2
        }
    };
    let _ = BTreeSet::<u8>::new();
    std::process::exit(code);
}
