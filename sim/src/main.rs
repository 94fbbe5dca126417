//! Deterministic simulation of spreadsheet-ods on a machine made of faults.
//!
//!   odssim check PROP [--tier quick|thorough] [--runs N] [--secs S]
//!   odssim replay FILE [-v]
//!   odssim selfcheck [RUNS]
//!   odssim triage PROP RUNS [FROM]
//!   odssim worker … / shrink …      (internal)

mod apply;
mod check;
mod exec;
mod foreign;
mod gen;
mod gen_steps;
mod interpose;
mod model;
mod observe;
mod options;
mod peer;
mod pkg;
mod rewrite;
mod rng;
mod sched;
mod schema;
mod shrink;
mod world;
mod xml;

use exec::{Scenario, Violation};
use std::io::Write;

#[global_allocator]
static A: sched::SimAlloc = sched::SimAlloc;

/// CPU seconds a single run may take before it counts as endless.
pub const HANG_CPU: u64 = 20;
/// Address space of a worker: a run that needs more has lost its bounds.
pub const MEM: u64 = 4 << 30;
pub const EXIT_HANG: i32 = 77;

extern "C" fn on_prof(_: i32) {
    unsafe {
        libc::_exit(EXIT_HANG);
    }
}

/// (Re)starts the watchdog: this much CPU time from now on.
pub fn guard(secs: u64) {
    unsafe {
        let mut it: libc::itimerval = std::mem::zeroed();
        it.it_value.tv_sec = secs as _;
        libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
    }
}

pub fn arm() {
    unsafe {
        libc::signal(libc::SIGPROF, on_prof as extern "C" fn(i32) as usize);
        let r = libc::rlimit {
            rlim_cur: MEM,
            rlim_max: MEM,
        };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn emit(s: String) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

/// Runs `f` in a fork of this process and returns what it reported.
/// Every simulated run happens in a process of its own, so no run can see
/// what another one left in process-wide state.
pub fn forked(cpu: u64, f: impl FnOnce() -> String) -> Result<String, Violation> {
    unsafe {
        let mut fd = [0i32; 2];
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fd[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            arm();
            guard(cpu);
            let s = f();
            let mut b = s.as_bytes();
            while !b.is_empty() {
                let n = libc::write(fd[1], b.as_ptr() as *const _, b.len());
                if n <= 0 {
                    libc::_exit(3);
                }
                b = &b[n as usize..];
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fd[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n < 0 && *libc::__errno_location() == libc::EINTR {
                continue;
            }
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            return Ok(String::from_utf8_lossy(&out).into_owned());
        }
        let hang = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == EXIT_HANG;
        Err(if hang {
            Violation {
                kind: "run-does-not-end".into(),
                client: 0,
                step: 0,
                detail: format!("a call took more than {cpu} s of CPU time"),
            }
        } else {
            Violation {
                kind: "process-died".into(),
                client: 0,
                step: 0,
                detail: format!(
                    "the process was ended with wait status {st:#x} (abort, stack overflow or memory exhausted)"
                ),
            }
        })
    }
}

/// Fills lazily built statics of the library before the first fork.
fn warm() {
    let s = gen_steps::scenario("C01", 2);
    let _ = exec::run(&s, false);
}

/// worker PROP FROM STRIDE COUNT
fn worker(a: &[String]) {
    warm();
    let p = &a[0];
    let from: u64 = a[1].parse().unwrap();
    let stride: u64 = a[2].parse().unwrap();
    let count: u64 = a[3].parse().unwrap();
    for i in 0..count {
        let seed = from + i * stride;
        let r = forked(HANG_CPU, || {
            let s = gen_steps::scenario(p, seed);
            let o = exec::run(&s, false);
            let mut line = format!(
                "R {seed} {:016x} {:016x} {}\n",
                o.stats.digest,
                o.stats.trace,
                u8::from(o.stats.checks > 0)
            );
            if let Some(v) = o.violation {
                line.push_str(&format!("V {seed} {}\n", serde_json::to_string(&v).unwrap()));
            }
            line.push_str(&format!("T {}\n", serde_json::to_string(&o.stats).unwrap()));
            line
        });
        match r {
            Ok(l) => emit(l),
            Err(v) => emit(format!("V {seed} {}\n", serde_json::to_string(&v).unwrap())),
        }
    }
    emit("E\n".into());
}

/// judge FILE CPU: prints the violation of a scenario
fn judge(a: &[String]) {
    warm();
    let s: Scenario = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    emit(format!(
        "J {}\n",
        serde_json::to_string(&judged(&s, a[1].parse().unwrap())).unwrap()
    ));
}

pub fn judged(s: &Scenario, cpu: u64) -> (Option<Violation>, u64) {
    let r = forked(cpu, || {
        let o = exec::run(s, false);
        serde_json::to_string(&(o.violation, o.stats.digest)).unwrap()
    });
    match r {
        Ok(l) => serde_json::from_str(&l).expect("report of a run"),
        Err(v) => (Some(v), 0),
    }
}

/// shrink IN OUT KIND SECS: minimisation; OUT always holds the best so far
fn shrink_cmd(a: &[String]) {
    warm();
    let s: Scenario = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let out = a[1].clone();
    let mut keep = |s: &Scenario| {
        let t = format!("{out}.tmp");
        let _ = std::fs::write(&t, serde_json::to_string(s).unwrap());
        let _ = std::fs::rename(&t, &out);
    };
    let mut ev = |s: &Scenario| judged(s, 6).0.map(|v| v.kind);
    let mut k = shrink::Shrink {
        eval: &mut ev,
        kind: a[2].clone(),
        until: shrink::limit(a[3].parse().unwrap()),
        best: s,
        tried: 0,
        keep: &mut keep,
    };
    k.run();
    emit(format!("K {}\n", k.tried));
}

fn triage(a: &[String]) {
    let p = &a[0];
    let n: u64 = a[1].parse().unwrap();
    let from: u64 = a.get(2).map(|v| v.parse().unwrap()).unwrap_or(0);
    let mut kinds = std::collections::BTreeMap::<String, (u64, String)>::new();
    let mut st = exec::Stats::default();
    let t = std::time::Instant::now();
    for seed in from..from + n {
        let s = gen_steps::scenario(p, seed);
        let o = exec::run(&s, false);
        st.add(&o.stats);
        if let Some(v) = o.violation {
            let mut seen = std::collections::BTreeSet::new();
            for d in v.detail.split(" ;; ") {
                if d.is_empty() {
                    continue;
                }
                let k = d.split(':').next().unwrap();
                let (a, b) = k.split_once('|').unwrap_or((k, ""));
                let mut c: Vec<&str> = a.split('.').collect();
                c.truncate(2);
                let key: String = format!("{} {}|{}", v.kind, c.join("."), b)
                    .chars()
                    .map(|c| if c.is_ascii_digit() { '#' } else { c })
                    .take(90)
                    .collect();
                let tail = if d.ends_with("missing") {
                    " missing"
                } else if d.contains("unexpected") {
                    " unexpected"
                } else {
                    ""
                };
                let key = key + tail;
                if seen.insert(key.clone()) {
                    let e = kinds
                        .entry(key)
                        .or_insert((0, format!("seed {seed} step {} {}", v.step, d)));
                    if d.len() < e.1.len().saturating_sub(20) {
                        e.1 = format!("seed {seed} step {} {}", v.step, d);
                    }
                    e.0 += 1;
                }
            }
        }
    }
    let mut ks: Vec<_> = kinds.into_iter().collect();
    ks.sort_by_key(|k| std::cmp::Reverse(k.1 .0));
    for (k, (n, ex)) in ks.iter().take(60) {
        println!("{n} x {k}\n     {}", ex.chars().take(900).collect::<String>());
    }
    println!("{st:?}");
    println!("{} kinds, {:?}", ks.len(), t.elapsed());
}

fn main() {
    exec::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let rest = a.get(1..).unwrap_or(&[]).to_vec();
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => {
            worker(&rest);
            0
        }
        Some("judge") => {
            judge(&rest);
            0
        }
        Some("shrink") => {
            shrink_cmd(&rest);
            0
        }
        Some("triage") => {
            triage(&rest);
            0
        }
        Some("show") => {
            let s = gen_steps::scenario(&rest[0], rest[1].parse().unwrap());
            for (i, c) in s.clients.iter().enumerate() {
                for (k, s) in c.iter().enumerate() {
                    println!("client {i} step {k}: {}", serde_json::to_string(s).unwrap());
                }
            }
            let o = exec::run(&s, true);
            println!("{:?}", o.violation);
            0
        }
        Some("check") => check::check(&rest),
        Some("replay") => check::replay(&rest),
        Some("selfcheck") => check::selfcheck(&rest),
        _ => {
            eprintln!("usage: odssim check|replay|selfcheck|triage …");
            2
        }
    };
    std::process::exit(code);
}
