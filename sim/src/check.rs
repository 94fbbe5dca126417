//! The parent: distributes seeds to worker processes, minimises and confirms a
//! violation, writes replay file and evidence.

use crate::exec::{Scenario, Stats, Violation};
use crate::gen_steps;
use crate::HANG_CPU;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    how: String,
    violation: Violation,
    digest: String,
    original_seed: u64,
    original_steps: usize,
    shrunk_steps: usize,
    scenario: Scenario,
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("current_exe")
}

fn steps(s: &Scenario) -> usize {
    s.clients.iter().map(|c| c.len()).sum()
}

enum Msg {
    Line(usize, String),
    End(usize),
}

struct Worker {
    child: Child,
    ended: bool,
}

#[derive(Default)]
struct Sum {
    stats: Stats,
    runs: u64,
    judged: u64,
    traces: HashSet<u64>,
    nontrivial: HashSet<u64>,
    digests: HashMap<u64, u64>,
    samples: Vec<(u64, String)>,
}

/// What the workers found.
enum Found {
    Nothing,
    Bad(u64, Violation),
    Harness(String),
}

fn spawn(p: &str, from: u64, stride: u64, count: u64) -> Child {
    Command::new(exe())
        .args(["worker", p, &from.to_string(), &stride.to_string(), &count.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker")
}

fn search(p: &str, base: u64, runs: u64, workers: u64, until: Instant, sum: &mut Sum) -> Found {
    let (tx, rx) = channel();
    let mut ws: Vec<Worker> = Vec::new();
    for i in 0..workers {
        let count = (runs + workers - 1 - i) / workers;
        let mut child = spawn(p, base + i, workers, count);
        let out = child.stdout.take().unwrap();
        let tx = tx.clone();
        let k = i as usize;
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(Msg::Line(k, l)).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Msg::End(k));
        });
        ws.push(Worker {
            child,
            ended: false,
        });
    }
    drop(tx);
    let mut live = ws.len();
    let mut last = Instant::now();
    let mut best: Option<(u64, Violation)> = None;
    let mut harness = None;
    // After the first violation the workers get a moment to report smaller seeds.
    while live > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(k, l)) => {
                last = Instant::now();
                let (tag, rest) = l.split_once(' ').unwrap_or((&l, ""));
                match tag {
                    "R" => {
                        let f: Vec<&str> = rest.split(' ').collect();
                        let seed: u64 = f[0].parse().unwrap_or(0);
                        let d = u64::from_str_radix(f[1], 16).unwrap_or(0);
                        let t = u64::from_str_radix(f[2], 16).unwrap_or(0);
                        sum.runs += 1;
                        sum.traces.insert(t);
                        if f[3] == "1" {
                            sum.judged += 1;
                            sum.nontrivial.insert(t);
                        }
                        if seed < base + 4096 {
                            sum.digests.insert(seed, d);
                        }
                        if sum.samples.len() < 4 && f[3] == "1" {
                            sum.samples
                                .push((seed, format!("digest {}, trace {}", f[1], f[2])));
                        }
                    }
                    "T" => {
                        if let Ok(s) = serde_json::from_str::<Stats>(rest) {
                            sum.stats.add(&s);
                        }
                    }
                    "V" => {
                        let (seed, j) = rest.split_once(' ').unwrap();
                        let seed: u64 = seed.parse().unwrap();
                        let v: Violation = serde_json::from_str(j).unwrap();
                        if best.as_ref().map_or(true, |b| seed < b.0) {
                            best = Some((seed, v));
                        }
                    }
                    "E" => ws[k].ended = true,
                    _ => {}
                }
            }
            Ok(Msg::End(k)) => {
                last = Instant::now();
                live -= 1;
                let st = ws[k].child.wait().expect("wait");
                if !ws[k].ended && harness.is_none() {
                    harness = Some(format!("worker {k} ended unexpectedly: {st:?}"));
                }
            }
            Err(RecvTimeoutError::Timeout) => {
                if last.elapsed() > Duration::from_secs(120) {
                    harness = Some("no worker made progress for 120 s".into());
                }
            }
            Err(RecvTimeoutError::Disconnected) => break,
        }
        if best.is_some() || harness.is_some() || Instant::now() >= until {
            break;
        }
    }
    for w in &mut ws {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    match (best, harness) {
        (Some((s, v)), _) => Found::Bad(s, v),
        (None, Some(h)) => Found::Harness(h),
        _ => Found::Nothing,
    }
}

/// Runs a scenario in a process of its own.
fn judge(s: &Scenario, cpu: u64) -> Result<(Option<Violation>, u64), String> {
    let f = std::env::temp_dir().join(format!("odssim-{}-{:x}.json", std::process::id(), rand_name(s)));
    std::fs::write(&f, serde_json::to_string(s).unwrap()).map_err(|e| e.to_string())?;
    let o = Command::new(exe())
        .arg("judge")
        .arg(&f)
        .arg(cpu.to_string())
        .stderr(Stdio::null())
        .output();
    let _ = std::fs::remove_file(&f);
    let o = o.map_err(|e| e.to_string())?;
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    for l in t.lines() {
        if let Some(j) = l.strip_prefix("J ") {
            return serde_json::from_str(j).map_err(|e| e.to_string());
        }
    }
    Err(format!("judge ended with {:?}", o.status))
}

fn rand_name(s: &Scenario) -> u64 {
    crate::rng::fnv(serde_json::to_string(s).unwrap().as_bytes())
}

fn minimise(s: &Scenario, v: &Violation, secs: u64) -> Scenario {
    let dir = std::env::temp_dir();
    let fi = dir.join(format!("odssim-in-{}.json", std::process::id()));
    let fo = dir.join(format!("odssim-out-{}.json", std::process::id()));
    let _ = std::fs::remove_file(&fo);
    let mut best = s.clone();
    if std::fs::write(&fi, serde_json::to_string(s).unwrap()).is_ok() {
        let _ = Command::new(exe())
            .arg("shrink")
            .arg(&fi)
            .arg(&fo)
            .arg(&v.kind)
            .arg(secs.to_string())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        if let Ok(t) = std::fs::read_to_string(&fo) {
            if let Ok(b) = serde_json::from_str(&t) {
                best = b;
            }
        }
    }
    let _ = std::fs::remove_file(&fi);
    let _ = std::fs::remove_file(&fo);
    best
}

struct Args {
    tier: String,
    runs: u64,
    secs: u64,
}

/// Known findings: property, and the scenario file that shows it.
fn known(p: &str) -> Vec<(String, PathBuf)> {
    let mut v = Vec::new();
    let f = root().join("findings").join("known.txt");
    if let Ok(t) = std::fs::read_to_string(f) {
        for l in t.lines() {
            let Some(r) = l.strip_prefix("finding: property=") else {
                continue;
            };
            let w: Vec<&str> = r.splitn(3, ' ').collect();
            if w.len() == 3 && w[0] == p {
                v.push((w[2].to_string(), root().join("findings").join(w[1])));
            }
        }
    }
    v
}

pub fn check(a: &[String]) -> i32 {
    let Some(p) = a.first().cloned() else {
        eprintln!("check PROP");
        return 2;
    };
    if !gen_steps::PROPS.contains(&p.as_str()) {
        eprintln!("unknown property {p}");
        return 2;
    }
    let mut args = Args {
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        runs: 0,
        secs: 0,
    };
    let mut i = 1;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--tier" => args.tier = a[i + 1].clone(),
            "--runs" => args.runs = a[i + 1].parse().unwrap_or(0),
            "--secs" => args.secs = a[i + 1].parse().unwrap_or(0),
            _ => {}
        }
        i += 2;
    }
    let quick = args.tier != "thorough";
    if args.runs == 0 {
        args.runs = gen_steps::runs(&p, quick);
    }
    if args.secs == 0 {
        args.secs = if quick { 240 } else { 3600 };
    }
    let vs: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let base = vs.wrapping_mul(1_000_000_000) & !1;
    let workers = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16);
    let t0 = Instant::now();
    let mut sum = Sum::default();
    let found = search(&p, base, args.runs, workers, t0 + Duration::from_secs(args.secs), &mut sum);
    let wall_search = t0.elapsed().as_secs_f64();

    let mut violation = None;
    match found {
        Found::Harness(e) => {
            eprintln!("harness error: {e}");
            return 3;
        }
        Found::Nothing => {}
        Found::Bad(seed, v) => violation = Some((seed, v)),
    }

    // One seed is one execution: repeat some in other processes with another split.
    let mut redone = 0u64;
    let mut mismatch = 0u64;
    if violation.is_none() {
        let mut again = Sum::default();
        let n = 96.min(args.runs);
        let _ = search(&p, base, n, 3, Instant::now() + Duration::from_secs(60), &mut again);
        for (s, d) in &again.digests {
            if let Some(x) = sum.digests.get(s) {
                redone += 1;
                if x != d {
                    mismatch += 1;
                }
            }
        }
        if mismatch > 0 {
            eprintln!("warning: {mismatch} of {redone} repeated seeds ran differently");
        }
    }

    let mut code = 0;
    let mut vio_json = vec![];
    for (what, file) in known(&p) {
        let s: Option<Scenario> = std::fs::read_to_string(&file)
            .ok()
            .and_then(|t| serde_json::from_str::<Replay>(&t).ok())
            .map(|r| r.scenario);
        if let Some(s) = s {
            if let Ok((Some(_), _)) = judge(&s, HANG_CPU) {
                println!("KNOWN-FINDING: property={p} {what}");
            }
        }
    }
    if let Some((seed, v)) = violation {
        let orig = gen_steps::scenario(&p, seed);
        let v = match judge(&orig, HANG_CPU) {
            Ok((Some(v2), _)) => v2,
            Ok((None, _)) => {
                eprintln!("harness error: seed {seed} failed in a worker ({}) but not on its own", v.kind);
                return 3;
            }
            Err(e) => {
                eprintln!("harness error: {e}");
                return 3;
            }
        };
        let small = minimise(&orig, &v, if quick { 40 } else { 120 });
        let (sc, (vv, dig)) = match judge(&small, HANG_CPU) {
            Ok((Some(x), d)) if x.kind == v.kind => (small, (x, d)),
            _ => match judge(&orig, HANG_CPU) {
                Ok((Some(x), d)) => (orig.clone(), (x, d)),
                _ => (orig.clone(), (v.clone(), 0)),
            },
        };
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{p}-{seed}.json"));
        let r = Replay {
            property: p.clone(),
            how: format!("odssim replay {} (see /verif/README.md)", path.display()),
            violation: vv.clone(),
            digest: format!("{dig:016x}"),
            original_seed: seed,
            original_steps: steps(&orig),
            shrunk_steps: steps(&sc),
            scenario: sc,
        };
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()) {
            eprintln!("harness error: {e}");
            return 3;
        }
        println!(
            "{}: seed {seed}, client {} step {}: {}",
            vv.kind, vv.client, vv.step, vv.detail.chars().take(1500).collect::<String>()
        );
        println!("minimised from {} to {} steps", r.original_steps, r.shrunk_steps);
        println!("VIOLATION property={p} replay={}", path.display());
        vio_json.push(json!({"seed": seed, "kind": vv.kind, "detail": vv.detail.chars().take(600).collect::<String>(), "replay": path}));
        code = 1;
    }
    evidence(&p, &args, vs, base, &sum, wall_search, t0.elapsed().as_secs_f64(), workers, redone, mismatch, vio_json);
    if code == 0 {
        println!(
            "{p}: held on {} simulated runs ({} judged, {} distinct traces) in {:.1} s",
            sum.runs,
            sum.judged,
            sum.traces.len(),
            wall_search
        );
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &str,
    args: &Args,
    vs: u64,
    base: u64,
    sum: &Sum,
    wall: f64,
    total: f64,
    workers: u64,
    redone: u64,
    mismatch: u64,
    vio: Vec<serde_json::Value>,
) {
    let st = &sum.stats;
    let fired: BTreeMap<_, _> = st.fired.iter().collect();
    let per_hour = if wall > 0.0 { sum.runs as f64 / wall * 3600.0 } else { 0.0 };
    let short = |s: String| {
        if s.chars().count() > 240 {
            s.chars().take(240).collect::<String>() + "…"
        } else {
            s
        }
    };
    let samples: Vec<serde_json::Value> = sum
        .samples
        .iter()
        .map(|(seed, run)| {
            let sc = crate::gen_steps::scenario(p, *seed);
            let steps: Vec<String> = sc
                .clients
                .iter()
                .enumerate()
                .flat_map(|(i, c)| c.iter().map(move |s| format!("client {i}: {}", serde_json::to_string(s).unwrap())))
                .map(short)
                .collect();
            json!({"seed": seed, "run": run, "steps_all": steps.len(), "steps": steps.iter().take(25).collect::<Vec<_>>()})
        })
        .collect();
    let v = json!({
        "property": p,
        "tier": args.tier,
        "seed": vs,
        "level": "exploration",
        "coverage": {
            "evaluations": sum.runs,
            "distinct_nontrivial": sum.nontrivial.len(),
            "rule": "a run counts when at least one oracle judged it; distinct = different hash over the sequence of simulated system calls with their sizes, offsets, results, faults and every scheduling decision",
            "samples": samples,
            "seeds": format!("{}..{} (even: fault-free, odd: faults injected)", base, base + args.runs),
            "runs_planned": args.runs,
            "runs_per_hour, one seed each": per_hour.round(),
            "oracle_evaluations": st.checks,
            "distinct_interleavings": sum.traces.len(),
            "simulated_seconds": st.sim_s,
            "clock_readings": st.clock_reads,
            "scheduling_points": st.steps,
            "context_switches": st.switches,
            "simulated_io_calls": st.io_calls,
            "faults_fired": fired,
            "saves": {"all": st.saves, "acknowledged": st.saves_ok, "failed": st.saves_err},
            "loads": {"all": st.loads, "ok": st.loads_ok, "failed": st.loads_err},
            "edits": {"applied": st.edits, "not_applicable": st.edits_skipped},
            "crashes": st.crashes,
            "runs_not_judged_because_another_property_fails": st.skipped,
            "determinism": {"seeds_repeated_in_other_processes": redone, "different": mismatch},
            "workers": workers,
            "real_code": ["spreadsheet-ods (all of it, unmodified build)", "zip", "flate2/miniz_oxide or zlib-rs", "quick-xml", "chrono", "std::fs and std::io above the system calls"],
            "stubbed": ["file system calls (open, read, write, lseek, stat, close, rename, unlink)", "clock_gettime/gettimeofday/time", "getrandom (hash seeds)", "thread scheduling between clients"],
        },
        "wall_s": total,
        "violations": vio.len(),
        "violation_details": vio,
        "assumptions": [
            "a crash keeps every byte the process had handed to the (simulated) kernel and nothing else, unless a lost-sector fault is injected as well",
            "documents stay inside the domain in DESIGN.md"
        ],
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{p}.json")), serde_json::to_string_pretty(&v).unwrap());
}

pub fn replay(a: &[String]) -> i32 {
    let Some(f) = a.first() else {
        eprintln!("replay FILE [-v]");
        return 2;
    };
    let verbose = a.iter().any(|x| x == "-v");
    let t = match std::fs::read_to_string(Path::new(f)) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{f}: {e}");
            return 2;
        }
    };
    let r: Replay = match serde_json::from_str(&t) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{f}: {e}");
            return 2;
        }
    };
    if verbose {
        for (i, c) in r.scenario.clients.iter().enumerate() {
            for (k, s) in c.iter().enumerate() {
                println!("client {i} step {k}: {}", serde_json::to_string(s).unwrap());
            }
        }
        let s = r.scenario.clone();
        // the log is only available in-process
        if r.violation.kind != "process-died" && r.violation.kind != "run-does-not-end" {
            for l in crate::exec::run(&s, true).log {
                println!("  {l}");
            }
        }
    }
    match judge(&r.scenario, HANG_CPU) {
        Ok((Some(v), d)) => {
            let same = v.kind == r.violation.kind && (d == 0 || format!("{d:016x}") == r.digest);
            println!("{}: client {} step {}: {}", v.kind, v.client, v.step, v.detail);
            println!(
                "{}",
                if same {
                    "identical to the recorded execution"
                } else {
                    "differs from the recorded execution (other code?)"
                }
            );
            println!("VIOLATION property={} replay={f}", r.property);
            1
        }
        Ok((None, _)) => {
            println!("no violation");
            0
        }
        Err(e) => {
            eprintln!("harness error: {e}");
            3
        }
    }
}

/// The same seeds in different processes and splits give the same executions.
pub fn selfcheck(a: &[String]) -> i32 {
    let n: u64 = a.first().and_then(|v| v.parse().ok()).unwrap_or(200);
    let mut bad = 0;
    for p in gen_steps::PROPS {
        let mut one = Sum::default();
        let mut two = Sum::default();
        let t = Instant::now() + Duration::from_secs(600);
        search(p, 5_000_000_000, n, 8, t, &mut one);
        search(p, 5_000_000_000, n, 3, t, &mut two);
        let diff = one
            .digests
            .iter()
            .filter(|(k, v)| two.digests.get(k).is_some_and(|w| w != *v))
            .count();
        println!("{p}: {} seeds twice, {diff} different", one.digests.len().min(two.digests.len()));
        bad += diff;
    }
    i32::from(bad > 0)
}
