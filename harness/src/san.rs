//! The hostile workloads of P03 again, in an AddressSanitizer build and under
//! Miri. `harness sanrun THREADS SEED0 FROM N PHASE` is what runs there.
use crate::runner::*;
use crate::util::*;
use std::io::Write;
use std::path::PathBuf;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

fn case(ph: &str, s: u64) -> bool {
    let mut fails = match ph {
        "regs" => crate::p10::regs("P03", s, &|| {}).0,
        #[cfg(all(feature = "std", not(feature = "paranoid")))]
        "ops" => crate::p31::ops("P03", s, &|| {}).0,
        _ => crate::fuzz::raw("P03", s, &|| {}).0,
    };
    // panics have their own phases; what counts here is what the sanitizer says
    fails.retain(|f| f.label == "panic");
    !fails.is_empty()
}

pub fn sanrun(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (threads, seed0, from, count, ph) = (n(0), n(1), n(2), n(3), a[4].clone());
    trace_log(false);
    let next = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= count {
                    break;
                }
                let s = mix(mix(seed0, fnv(9, ph.as_bytes())), from + i);
                println!("{}", s);
                let _ = std::io::stdout().flush();
                case(&ph, s);
            });
        }
    });
    println!("done");
    0
}

pub fn one(kind: &str, ph: &str, seed: u64) -> (i32, String) {
    let mut c = cmd(kind);
    let o = c.args(["sancase", ph, &seed.to_string()]).output();
    match o {
        Ok(o) => (o.status.code().unwrap_or(-1), format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr))),
        Err(e) => (-1, e.to_string()),
    }
}
pub fn sancase(a: &[String]) -> i32 {
    case(&a[0], a[1].parse().unwrap());
    0
}

fn cmd(kind: &str) -> Command {
    let h = crate::p32::root_harness();
    if kind == "asan" {
        let mut c = Command::new(h.join("target-asan/x86_64-unknown-linux-gnu/debug/harness"));
        // the harness leaks a few texts on purpose
        c.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1");
        c
    } else {
        let mut c = Command::new("cargo");
        c.args(["+nightly", "miri", "run", "--offline", "--quiet", "--target-dir"]).arg(h.join("target-miri")).arg("--");
        c.env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks");
        c
    }
}

struct Job {
    kind: &'static str,
    ph: &'static str,
    child: std::process::Child,
    out: PathBuf,
    err: PathBuf,
}
fn start(kind: &'static str, ph: &'static str, threads: u64, from: u64, n: u64, dir: &std::path::Path) -> Job {
    let out = dir.join(format!("{}-{}-{}.out", kind, ph, from));
    let err = out.with_extension("err");
    let f = |p: &PathBuf| Stdio::from(std::fs::File::create(p).expect("scratch file"));
    let child = cmd(kind)
        .args(["sanrun", &threads.to_string(), &seed0().to_string(), &from.to_string(), &n.to_string(), ph])
        .stdout(f(&out))
        .stderr(f(&err))
        .process_group(0)
        .spawn()
        .expect("spawn");
    Job { kind, ph, child, out, err }
}

/// Wait for the jobs until the deadline; add what they observed.
fn collect(mut jobs: Vec<Job>, deadline: Instant, rep: &mut Report) {
    let t0 = Instant::now();
    let mut cases: std::collections::BTreeMap<(&str, &str), u64> = Default::default();
    for j in &mut jobs {
        let mut killed = false;
        let st = loop {
            match j.child.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) if Instant::now() > deadline => {
                    // its own process group: cargo and what it started
                    unsafe { kill(-(j.child.id() as i32), 9) };
                    let _ = j.child.wait();
                    killed = true;
                    break None;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(50)),
                Err(_) => break None,
            }
        };
        let out = std::fs::read_to_string(&j.out).unwrap_or_default();
        let err = std::fs::read_to_string(&j.err).unwrap_or_default();
        let seeds: Vec<u64> = out.lines().filter_map(|l| l.parse().ok()).collect();
        let done = out.lines().last() == Some("done");
        *cases.entry((j.kind, j.ph)).or_default() += seeds.len().saturating_sub(!done as usize) as u64;
        let alarm = err.contains("ERROR: AddressSanitizer") || err.contains("error: Undefined Behavior") || err.contains("unsafe precondition(s) violated");
        let crashed = st.map_or(false, |s| {
            use std::os::unix::process::ExitStatusExt;
            s.signal().map_or(false, |s| matches!(s, 4 | 6 | 7 | 8 | 11))
        });
        if alarm || crashed {
            let line = err
                .lines()
                .find(|l| l.contains("ERROR: AddressSanitizer") || l.contains("error: Undefined") || l.contains("unsafe precondition"))
                .unwrap_or("killed by a signal")
                .to_string();
            let at: Vec<&str> = err.lines().filter(|l| l.contains("/repo/") || l.contains("gdbstub")).take(3).map(|l| l.trim()).collect();
            let seed = *seeds.last().unwrap_or(&0);
            rep.viol.entry(format!("{} {}", j.kind, line.split("0x").next().unwrap_or(""))).or_insert((
                1,
                Viol { phase: format!("{}:{}", j.kind, j.ph), seed, msg: format!("{}: {} {:?} (among the last inputs {:?})\n{}", j.kind, line, at, &seeds[seeds.len().saturating_sub(8)..], err.chars().take(6000).collect::<String>()) },
            ));
        } else if !done && !killed {
            rep.extra.push((format!("{}_unavailable", j.kind), jstr(&err.chars().take(400).collect::<String>())));
        }
    }
    for ((k, p), n) in cases {
        rep.cases += n;
        rep.phases.push((
            format!("{}-{}", k, p),
            n,
            t0.elapsed().as_secs_f64(),
            match k {
                "asan" => "the same workload in a build with AddressSanitizer".into(),
                _ => "the same workload interpreted by Miri (undefined behaviour, aliasing, uninitialized memory)".to_string(),
            },
        ));
    }
}

pub fn run(rep: &mut Report) {
    let deep = tier() == "thorough";
    let dir = crate::p32::root_harness().join("target").join(format!("san-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let k = if deep { 20 } else { 1 };
    if std::env::var("SAN_ASAN").as_deref() == Ok("1") {
        for (ph, n) in [("raw", 60_000), ("regs", 10_000), ("ops", 300)] {
            let j = start("asan", ph, 8, 0, n * k, &dir);
            collect(vec![j], Instant::now() + Duration::from_secs(3600), rep);
        }
    }
    for v in ["ASAN", "MIRI"] {
        if std::env::var(format!("SAN_{}", v)).as_deref() != Ok("1") {
            rep.extra.push((format!("{}_unavailable", v), jstr("the build failed")));
        }
    }
    if std::env::var("SAN_MIRI").as_deref() == Ok("1") {
        let dl = Instant::now() + Duration::from_secs(if deep { 1800 } else { 100 });
        let n = if deep { 5_000 } else { 150 };
        let mut jobs: Vec<Job> = (0..7).map(|i| start("miri", "raw", 1, i * 1_000_000, n, &dir)).collect();
        jobs.push(start("miri", "regs", 1, 0, n, &dir));
        collect(jobs, dl, rep);
    }
    let _ = std::fs::remove_dir_all(&dir);
}
