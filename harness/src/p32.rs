//! The same sessions in several builds of the library.
//!
//! `harness transcript SEED0 N FILE` runs N sessions and writes one hash each;
//! `harness transcript-one SEED0 I` prints one session step by step. The check
//! runs these in every build and compares.
use crate::engine::*;
use crate::fuzz;
use crate::runner::*;
use crate::session::*;
use crate::util::*;
use crate::wire::*;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::Instant;

/// what this build of the harness supports
fn my_levels() -> &'static [u8] {
    if cfg!(feature = "std") {
        &[0, 1, 2]
    } else if cfg!(feature = "alloc") {
        &[1, 2]
    } else {
        &[1]
    }
}
fn level_of(i: u64) -> u8 {
    [1, 1, 1, 2, 0][(i % 5) as usize]
}

/// Families of commands take turns, malformed streams are a third.
fn plan_of(seed0: u64, i: u64) -> Plan {
    let s = mix(mix(seed0, 0x9032), i);
    const PROPS: [&str; 26] = [
        "P02", "P05", "P06", "P07", "P08", "P09", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P22", "P23", "P24",
        "P25", "P26", "P29", "P04", "P03",
    ];
    let p = PROPS[(i / 15 % 26) as usize];
    let mut p = if i / 5 % 3 == 0 { fuzz::plan(p, s) } else { gen_plan(p, s) };
    p.record = true;
    p
}

fn step_hash(h: u64, level: u8, r: &Rec) -> u64 {
    let mut h = fnv(h, &r.input);
    h = fnv(h, r.label.as_bytes());
    h = fnv(h, format!("{:?}{:?}", r.evs, r.st).as_bytes());
    fnv(h, &shape(level, r))
}

/// The transmitted bytes; where builds may differ in how console output is cut
/// into packets, the joined output.
fn shape(level: u8, r: &Rec) -> Vec<u8> {
    let console = |p: &[u8]| p.len() > 1 && p[0] == b'O' && p[1..].iter().all(|c| c.is_ascii_hexdigit());
    if level == 1 && r.dec.iter().any(|p| console(p)) {
        let mut v = vec![];
        let mut joined = false;
        for p in &r.dec {
            if console(p) {
                if !joined {
                    v.extend_from_slice(b"$O");
                }
                joined = true;
                v.extend_from_slice(&p[1..]);
            } else {
                joined = false;
                v.push(b'$');
                v.extend_from_slice(p);
            }
        }
        // incomplete packets and acknowledgements
        let p = parse_tx(&r.out, true);
        let acks = p.items.iter().filter(|i| **i == Item::Ack).count();
        v.extend(format!("|{}|", acks).bytes());
        v.extend(p.partial);
        return v;
    }
    let mut v = r.out.clone();
    v.extend((r.flushed as u64).to_le_bytes());
    v
}

fn run_one(seed0: u64, i: u64) -> (u64, Out) {
    let l = level_of(i);
    set_level(l);
    let o = run_plan(&plan_of(seed0, i), &|| {});
    set_level(0);
    let mut h = 0x32;
    // flush positions are absolute; console output shifts them
    let mut shifted = false;
    for r in &o.recs {
        let mut r = r.clone();
        shifted |= l == 1 && r.dec.iter().any(|p| p.first() == Some(&b'O') && p.len() > 2);
        if shifted {
            r.flushed = 0;
        }
        h = step_hash(h, l, &r);
    }
    (h, o)
}

fn line(level: u8, r: &Rec) -> String {
    format!("{} client {} -> [{}] calls {:?} state {:?}", r.label, show(&r.input), show(&shape(level, &Rec { flushed: 0, ..r.clone() })), r.evs, r.st)
        .replace('\n', "\\n")
}

pub fn transcript_one(seed0: u64, i: u64) {
    let l = level_of(i);
    let (_, o) = run_one(seed0, i);
    for r in &o.recs {
        println!("{} flushed up to {}", line(l, r), r.flushed);
    }
}

pub fn transcript(seed0: u64, n: u64, file: &Path) {
    trace_log(false);
    let next = AtomicU64::new(0);
    let levels = my_levels();
    let all: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let sum = [const { AtomicU64::new(0) }; 4];
    std::thread::scope(|sc| {
        for _ in 0..WORKERS {
            sc.spawn(|| {
                let mut tot = [0u64; 4];
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n {
                        break;
                    }
                    if !levels.contains(&level_of(i)) {
                        continue;
                    }
                    // not in a session's own step: remembered for crashes
                    let (h, o) = run_one(seed0, i);
                    all[i as usize].store(h | 1, Relaxed);
                    tot[0] += 1;
                    tot[1] += o.recs.len() as u64;
                    tot[2] += o.out_len as u64;
                    tot[3] += o.recs.iter().map(|r| r.evs.len() as u64).sum::<u64>();
                }
                for (s, t) in sum.iter().zip(tot) {
                    s.fetch_add(t, Relaxed);
                }
            });
        }
    });
    let mut v = vec![];
    for s in &sum {
        v.extend(s.load(Relaxed).to_le_bytes());
    }
    for a in &all {
        v.extend(a.load(Relaxed).to_le_bytes());
    }
    std::fs::write(file, v).expect("transcript file");
}

/// (name, what it is)
const BUILDS: [(&str, &str); 6] = [
    ("std", "default features, debug assertions"),
    ("release", "default features, optimized, no debug assertions"),
    ("alloc", "alloc only"),
    ("none", "no features"),
    ("paranoid", "default features and paranoid_unsafe"),
    ("nonerel", "no features, optimized, no debug assertions"),
];

fn exe(b: &str) -> PathBuf {
    let h = root_harness();
    match b {
        "std" => std::env::current_exe().expect("exe"),
        "release" | "nonerel" => h.join(format!("target-{}/release/harness", b)),
        _ => h.join(format!("target-{}/debug/harness", b)),
    }
}
pub fn root_harness() -> PathBuf {
    std::env::current_dir().expect("cwd")
}

fn run_build(b: &str, seed: u64, n: u64, f: &Path) -> Result<Vec<u64>, String> {
    let st = Command::new(exe(b))
        .args(["transcript", &seed.to_string(), &n.to_string(), &f.display().to_string()])
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| format!("cannot run the {} build: {}", b, e))?;
    if !st.success() {
        return Err(format!("the {} build died running the sessions: {}", b, st));
    }
    let v = std::fs::read(f).map_err(|e| e.to_string())?;
    Ok(v.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
}
fn one_lines(b: &str, seed: u64, i: u64) -> Vec<String> {
    let o = Command::new(exe(b))
        .args(["transcript-one", &seed.to_string(), &i.to_string()])
        .stderr(std::process::Stdio::null())
        .output();
    match o {
        Ok(o) => {
            let mut v: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect();
            if !o.status.success() {
                v.push(format!("the process died: {}", o.status));
            }
            v
        }
        Err(e) => vec![e.to_string()],
    }
}

pub fn describe(b: &str, seed: u64, i: u64) -> Option<String> {
    let (x, y) = (one_lines("std", seed, i), one_lines(b, seed, i));
    // the flush position is not comparable after console output
    let cut = |s: &String| s.rsplit_once(" flushed up to").map(|x| x.0.to_string()).unwrap_or(s.clone());
    for k in 0..x.len().max(y.len()) {
        let (a, c) = (x.get(k), y.get(k));
        if a.map(cut) != c.map(cut) {
            let s = |l: Option<&String>| l.map(|l| l.chars().take(700).collect::<String>()).unwrap_or("(session over)".into());
            return Some(format!("step {}: default build {} / {} build {}", k, s(a), b, s(c)));
        }
    }
    if x != y {
        return Some("output flushed at different points".into());
    }
    None
}

const RULE: &str = "one session (randomized client session with target faults, or a raw byte stream) run in every build of the library that can express it; input, transmitted bytes, flushes, target calls, session state and error text compared step by step (console output joined where a build without alloc is involved)";

pub fn run(prop: &'static str) -> i32 {
    let t0 = Instant::now();
    let n = if tier() == "thorough" { 3_000_000 } else { 150_000 };
    let seed = seed0();
    let mut rep = Report::default();
    rep.assumptions.push("builds are compared with each other, not with a model: a fault common to all builds is for the other properties".into());
    let dir = root_harness().join("target").join(format!("p32-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    // builds that failed, from run.sh
    for b in std::env::var("P32_BROKEN").unwrap_or_default().split_whitespace() {
        rep.violation("builds", b, format!("the library does not build in the {} configuration: see harness/target-{}/build.log", b, b));
    }
    let chunk = 150_000u64;
    let mut done = 0;
    let mut per: Vec<(String, [u64; 4])> = BUILDS.iter().map(|b| (b.0.to_string(), [0; 4])).collect();
    'outer: while done < n && rep.viol.is_empty() {
        let m = chunk.min(n - done);
        let s = mix(seed, done);
        let mut base: Vec<u64> = vec![];
        for (k, (b, _)) in BUILDS.iter().enumerate() {
            match run_build(b, s, m, &dir.join(b)) {
                Err(e) => {
                    rep.violation("builds", b, e);
                    if k == 0 {
                        break 'outer;
                    }
                }
                Ok(v) => {
                    for j in 0..4 {
                        per[k].1[j] += v[j];
                    }
                    rep.stats.sessions += v[0];
                    rep.stats.steps += v[1];
                    rep.stats.bytes_out += v[2];
                    rep.stats.events += v[3];
                    if k == 0 {
                        base = v;
                        for h in &base[4..] {
                            if rep.stats.distinct.len() < DISTINCT_CAP {
                                rep.stats.distinct.insert(*h);
                            }
                        }
                        continue;
                    }
                    let mut bad = 0;
                    for i in 0..m {
                        let (a, c) = (base[4 + i as usize], v[4 + i as usize]);
                        if c == 0 {
                            continue;
                        }
                        rep.cases += 1;
                        if a != c {
                            bad += 1;
                            if bad <= 3 {
                                let d = describe(b, s, i).unwrap_or_else(|| "the difference did not show again".into());
                                rep.viol.entry(format!("{}", b)).or_insert((
                                    0,
                                    Viol { phase: format!("{}:{}", b, i), seed: s, msg: format!("default and {} builds differ: {}", b, d) },
                                ));
                            }
                            rep.viol.get_mut(*b).unwrap().0 += 1;
                        }
                    }
                }
            }
        }
        done += m;
    }
    let _ = std::fs::remove_dir_all(&dir);
    rep.phases.push(("builds".into(), rep.cases, t0.elapsed().as_secs_f64(), RULE.into()));
    rep.extra.push((
        "builds".into(),
        format!(
            "[{}]",
            per.iter()
                .zip(BUILDS)
                .map(|((n, c), b)| format!(
                    "{{\"name\":{},\"is\":{},\"sessions\":{},\"steps\":{},\"bytes\":{},\"target_calls\":{}}}",
                    jstr(n),
                    jstr(b.1),
                    c[0],
                    c[1],
                    c[2],
                    c[3]
                ))
                .collect::<Vec<_>>()
                .join(",")
        ),
    ));
    finish(prop, rep, t0)
}
