mod checks;
mod conn;
mod drive;
mod engine;
mod fuzz;
#[cfg(all(feature = "std", not(feature = "paranoid")))]
mod gdbcli;
mod gens;
mod mini;
mod p10;
mod p27;
mod p30;
#[cfg(all(feature = "std", not(feature = "paranoid")))]
mod p31;
mod p32;
mod runner;
mod san;
mod session;
mod sigcheck;
mod signals;
mod stream;
mod sys_table;
mod target;
mod util;
mod wire;

use std::time::Instant;

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// Run the check in a child process so that aborts and signals are reported.
fn supervise(prop: &'static str) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let st = std::process::Command::new(&exe).args(["child", prop]).status().expect("spawn");
    match st.code() {
        Some(c @ (0 | 1 | 3)) => c,
        other => {
            // crashed: find the case
            let mut phase = String::new();
            let mut seeds = vec![];
            if let Ok(b) = std::fs::read(runner::cur_path(prop)) {
                if b.len() > 32 {
                    phase = String::from_utf8_lossy(&b[..32]).trim().to_string();
                    for c in b[32..].chunks_exact(8) {
                        seeds.push(u64::from_le_bytes(c.try_into().unwrap()));
                    }
                }
            }
            let mut hit = None;
            for s in &seeds {
                let r = std::process::Command::new(&exe)
                    .args(["case", prop, &phase, &s.to_string()])
                    .stdout(std::process::Stdio::null())
                    .status();
                if let Ok(r) = r {
                    if !matches!(r.code(), Some(0 | 1)) {
                        hit = Some(*s);
                        break;
                    }
                }
            }
            if hit.is_none() && other == Some(101) {
                // the harness itself panicked
                eprintln!("harness failure (exit {:?})", other);
                return 4;
            }
            let mut rep = runner::Report::default();
            rep.cases = 1;
            rep.viol.insert(
                "crash".into(),
                (
                    1,
                    runner::Viol {
                        phase,
                        seed: hit.unwrap_or(0),
                        msg: format!("the process died ({}) while the library was processing input; candidate seeds {:?}", st, seeds),
                    },
                ),
            );
            runner::finish(prop, rep, t0)
        }
    }
}

fn main() {
    drive::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" => supervise(leak(&a[2])),
        "child" => checks::run(leak(&a[2])),
        "case" => {
            // prop phase seed
            let (fails, _) = checks::one(leak(&a[2]), &a[3], a[4].parse().unwrap());
            for f in &fails {
                println!("{} {:?} {}", f.label, f.tags, f.msg);
            }
            !fails.is_empty() as i32
        }
        "replay" => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            if g("property ") == "P32" {
                let ph = g("phase ");
                let (b, i) = ph.split_once(':').unwrap_or(("none", "0"));
                let d = p32::describe(b, g("seed ").parse().unwrap_or(0), i.parse().unwrap_or(0));
                println!("{}", d.clone().unwrap_or_else(|| "no violation".into()));
                std::process::exit(d.is_some() as i32);
            }
            if let Some((k @ ("asan" | "miri"), ph)) = g("phase ").split_once(':') {
                let (c, o) = san::one(k, ph, g("seed ").parse().unwrap_or(0));
                println!("{}", o);
                std::process::exit(c);
            }
            let (fails, _) = checks::one(leak(&g("property ")), &g("phase "), g("seed ").parse().unwrap_or(0));
            for f in &fails {
                println!("{} {:?} {}", f.label, f.tags, f.msg);
            }
            if fails.is_empty() {
                println!("no violation");
            }
            !fails.is_empty() as i32
        }
        "noop" => 0,
        "all" => all(a[2].parse().unwrap(), &a[3..]),
        "sanrun" => san::sanrun(&a[2..]),
        "sancase" => san::sancase(&a[2..]),
        "transcript" => {
            p32::transcript(a[2].parse().unwrap(), a[3].parse().unwrap(), std::path::Path::new(&a[4]));
            0
        }
        "transcript-one" => {
            p32::transcript_one(a[2].parse().unwrap(), a[3].parse().unwrap());
            0
        }
        "explore" => {
            explore(leak(&a[2]), &a[3], a[4].parse().unwrap());
            0
        }
        _ => {
            eprintln!("usage: harness check PROP | replay FILE | case PROP PHASE SEED | explore PROP PHASE N");
            2
        }
    };
    std::process::exit(code);
}

/// All failures of a phase, whatever property they concern.
fn explore(prop: &'static str, phase: &str, n: u64) {
    let mut tot = engine::Stats::default();
    let mut seen = std::collections::BTreeMap::<String, (u64, String)>::new();
    let t = Instant::now();
    for i in 0..n {
        let s = runner::case_seed(prop, phase, i);
        let (fails, st) = checks::one(prop, phase, s);
        tot.merge(st);
        for f in fails {
            let k = format!("{}|{:?}", runner::key_of(&f), f.tags);
            seen.entry(k).or_insert((0, format!("seed {} {}", s, f.msg))).0 += 1;
        }
    }
    for (k, (n, m)) in &seen {
        println!("== {} x{}\n{}\n", k, n, m);
    }
    println!("{:?} sessions {} steps {} events {} notes {:?} ends {:?}", t.elapsed(), tot.sessions, tot.steps, tot.events, tot.notes, tot.ends);
}

/// For trying out changes: all checks with fewer cases, up to the first that
/// fails.
fn all(div: u64, only: &[String]) -> i32 {
    let props: Vec<&'static str> = (1..=31).map(|i| leak(&format!("P{:02}", i))).collect();
    for (quick, p) in [(true, "P03"), (true, "P18")].into_iter().chain(props.iter().map(|p| (false, *p))) {
        if !only.is_empty() && (quick || !only.iter().any(|o| o == p)) {
            continue;
        }
        for mut ph in checks::phases(p, false) {
            ph.n = if quick { ph.n / div / 2 } else { ph.n / div }.max(8);
            let mut rep = runner::Report::default();
            if runner::run_phase(p, &ph, &mut rep).is_err() {
                return 1;
            }
            let mut hit = false;
            for (k, (n, v)) in &rep.viol {
                println!("CAUGHT {} {} x{} {} {}", p, ph.name, n, k, v.msg.lines().next().unwrap_or("").chars().take(200).collect::<String>());
                hit = true;
            }
            if quick {
                for (k, (n, _)) in &rep.other {
                    println!("CAUGHT other {} x{}", k, n);
                    hit = true;
                }
            }
            if hit {
                return 1;
            }
        }
    }
    0
}
