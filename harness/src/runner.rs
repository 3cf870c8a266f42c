//! Parallel execution of check phases, crash and hang supervision, evidence.
use crate::engine::{Fail, Stats};
use crate::util::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type CaseFn = fn(prop: &'static str, seed: u64, hb: &dyn Fn()) -> (Vec<Fail>, Stats);

pub struct Phase {
    pub name: &'static str,
    pub n: u64,
    pub f: CaseFn,
    /// what one case is
    pub rule: &'static str,
    pub trace_log: bool,
}
pub fn phase(name: &'static str, n: u64, f: CaseFn, rule: &'static str) -> Phase {
    Phase { name, n, f, rule, trace_log: false }
}

pub const WORKERS: usize = 8;

pub fn root() -> PathBuf {
    // run.sh exports it; the fallback serves manual runs
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub fn seed0() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn case_seed(prop: &str, phase: &str, i: u64) -> u64 {
    mix(mix(seed0(), fnv(0, prop.as_bytes())), mix(fnv(7, phase.as_bytes()), i))
}

struct NullLog;
impl log::Log for NullLog {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        // formatting is the part that executes library code
        let s = format!("{}", r.args());
        LOGGED.fetch_add(s.len() as u64, Relaxed);
    }
    fn flush(&self) {}
}
pub static LOGGED: AtomicU64 = AtomicU64::new(0);
static LOG: NullLog = NullLog;
pub fn trace_log(on: bool) {
    let _ = log::set_logger(&LOG);
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}

#[derive(Default)]
pub struct Report {
    pub stats: Stats,
    pub cases: u64,
    /// first failures of this property, by kind
    pub viol: BTreeMap<String, (u64, Viol)>,
    /// failures that concern other properties
    pub other: BTreeMap<String, (u64, String)>,
    pub phases: Vec<(String, u64, f64, String)>,
    pub extra: Vec<(String, String)>,
    pub assumptions: Vec<String>,
}
#[derive(Clone)]
pub struct Viol {
    pub phase: String,
    pub seed: u64,
    pub msg: String,
}

pub fn key_of(f: &Fail) -> String {
    let m: String = f
        .msg
        .lines()
        .next()
        .unwrap_or("")
        .split('[')
        .next()
        .unwrap_or("")
        .chars()
        .map(|c| if c.is_ascii_digit() { '#' } else { c })
        .take(90)
        .collect();
    format!("{}: {}", f.label, m)
}

pub fn kf_path() -> PathBuf {
    root().join("known-findings.txt")
}
/// `known: property=Pxx match=<text> -- <description>`
pub fn known(prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(kf_path()).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, r) = l.split_once(' ')?;
            if p != prop {
                return None;
            }
            let r = r.strip_prefix("match=")?;
            let (m, d) = r.split_once(" -- ")?;
            Some((m.to_string(), d.to_string()))
        })
        .collect()
}

impl Report {
    pub fn add_fail(&mut self, prop: &str, phase: &str, seed: u64, f: &Fail) {
        let k = key_of(f);
        if f.tags.contains(&prop) {
            let e = self
                .viol
                .entry(k)
                .or_insert((0, Viol { phase: phase.into(), seed, msg: format!("{}: {}", f.label, f.msg) }));
            e.0 += 1;
        } else {
            let e = self.other.entry(format!("{} {:?}", k, f.tags)).or_insert((0, format!("phase {} seed {}", phase, seed)));
            e.0 += 1;
        }
    }
    pub fn violation(&mut self, phase: &str, key: &str, msg: String) {
        self.viol
            .entry(key.into())
            .or_insert((0, Viol { phase: phase.into(), seed: 0, msg }))
            .0 += 1;
    }
}

fn cpu_ticks(tid: u64) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let r = s.rsplit(')').next().unwrap_or("");
    let v: Vec<&str> = r.split_whitespace().collect();
    v.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + v.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

pub fn cur_path(prop: &str) -> PathBuf {
    root().join("replay").join(format!("{}.cur", prop))
}

pub struct Hang {
    pub seed: u64,
}

/// Run all cases of a phase. `Err` if a worker is stuck.
pub fn run_phase(prop: &'static str, ph: &Phase, rep: &mut Report) -> Result<(), Hang> {
    let t0 = Instant::now();
    let _ = std::fs::create_dir_all(root().join("replay"));
    let cur = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(cur_path(prop)).expect("replay dir");
    // header: phase name, then one seed per worker
    let mut h = [b' '; 32];
    h[..ph.name.len()].copy_from_slice(ph.name.as_bytes());
    let _ = cur.write_all_at(&h, 0);
    trace_log(ph.trace_log);
    let next = AtomicU64::new(0);
    let beats: Vec<AtomicU64> = (0..WORKERS).map(|_| AtomicU64::new(0)).collect();
    let tids: Vec<AtomicU64> = (0..WORKERS).map(|_| AtomicU64::new(0)).collect();
    let seeds: Vec<AtomicU64> = (0..WORKERS).map(|_| AtomicU64::new(0)).collect();
    let live = AtomicUsize::new(WORKERS);
    let stop = AtomicBool::new(false);
    let shared: Mutex<Report> = Mutex::new(std::mem::take(rep));
    let mut hang = None;
    std::thread::scope(|sc| {
        for w in 0..WORKERS {
            let (next, beats, tids, seeds, live, stop, shared, cur) =
                (&next, &beats, &tids, &seeds, &live, &stop, &shared, &cur);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    tids[w].store(own_tid(), Relaxed);
                    let mut stats = Stats::default();
                    let mut cases = 0;
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= ph.n || stop.load(Relaxed) {
                            break;
                        }
                        let s = case_seed(prop, ph.name, i);
                        seeds[w].store(s, Relaxed);
                        let _ = cur.write_all_at(&s.to_le_bytes(), 32 + 8 * w as u64);
                        beats[w].fetch_add(1, Relaxed);
                        let (fails, st) = crate::drive::guard(|| {
                            (ph.f)(prop, s, &|| {
                                beats[w].fetch_add(1, Relaxed);
                            })
                        })
                        .unwrap_or_else(|m| {
                            // sessions catch panics of the library themselves;
                            // this one came out of code called directly
                            (vec![Fail { tags: vec![prop], label: "panic", msg: format!("panicked: {}", m) }], Stats::default())
                        });
                        cases += 1;
                        stats.merge(st);
                        if !fails.is_empty() {
                            let mut r = shared.lock().unwrap();
                            for f in &fails {
                                r.add_fail(prop, ph.name, s, f);
                            }
                            // enough evidence
                            if r.viol.values().map(|v| v.0).sum::<u64>() > 200 {
                                stop.store(true, Relaxed);
                            }
                        }
                    }
                    let mut r = shared.lock().unwrap();
                    r.stats.merge(stats);
                    r.cases += cases;
                    live.fetch_sub(1, Relaxed);
                })
                .expect("thread");
        }
        // watchdog
        let mut last: Vec<(u64, Instant, u64)> =
            (0..WORKERS).map(|w| (beats[w].load(Relaxed), Instant::now(), cpu_ticks(tids[w].load(Relaxed)))).collect();
        let mut tick = 0;
        while live.load(Relaxed) > 0 {
            std::thread::sleep(Duration::from_millis(if tick < 50 { 10 } else { 200 }));
            tick += 1;
            for w in 0..WORKERS {
                let b = beats[w].load(Relaxed);
                let tid = tids[w].load(Relaxed);
                if b != last[w].0 || tid == 0 {
                    last[w] = (b, Instant::now(), cpu_ticks(tid));
                } else if last[w].1.elapsed() > Duration::from_secs(30) && live.load(Relaxed) > 0 {
                    // a hundred ticks per second
                    let c = cpu_ticks(tid).saturating_sub(last[w].2);
                    // over sockets, a thread can also be stuck without running
                    if c > 2000 || (prop == "P31" && last[w].1.elapsed() > Duration::from_secs(150)) {
                        hang = Some(seeds[w].load(Relaxed));
                        // the stuck thread can't be joined: report and leave
                        let mut r = std::mem::take(&mut *shared.lock().unwrap());
                        r.phases.push((ph.name.into(), next.load(Relaxed), t0.elapsed().as_secs_f64(), ph.rule.into()));
                        let s = hang.unwrap();
                        let ended = r.viol.is_empty();
                        r.viol.insert(
                            "hang".into(),
                            (
                                1,
                                Viol {
                                    phase: ph.name.into(),
                                    seed: s,
                                    msg: "the library did not return for more than 20 s of processor time (or 150 s blocked on a socket) on one input".into(),
                                },
                            ),
                        );
                        let _ = ended;
                        finish(prop, r, Instant::now());
                        std::process::exit(1);
                    }
                }
            }
        }
    });
    trace_log(false);
    *rep = shared.into_inner().unwrap();
    rep.phases.push((ph.name.into(), ph.n.min(next.load(Relaxed)), t0.elapsed().as_secs_f64(), ph.rule.into()));
    match hang {
        Some(seed) => Err(Hang { seed }),
        None => Ok(()),
    }
}

pub fn tier() -> &'static str {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
}

pub fn write_replay(prop: &str, v: &Viol) -> PathBuf {
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{:016x}.txt", prop, v.phase, v.seed));
    let _ = std::fs::write(
        &p,
        format!(
            "property {}\nphase {}\nseed {}\n\nreplay with: harness/run.sh {} replay {}\n\n{}\n",
            prop,
            v.phase,
            v.seed,
            prop,
            p.display(),
            v.msg
        ),
    );
    p
}

/// Write evidence, print findings, return the exit code.
pub fn finish(prop: &'static str, rep: Report, t0: Instant) -> i32 {
    let known = known(prop);
    let mut code = 0;
    let mut shown_known = std::collections::BTreeSet::new();
    let mut nviol = 0;
    let mut shown = 0;
    for (k, (n, v)) in &rep.viol {
        if let Some((_, d)) = known.iter().find(|(m, _)| k.contains(m.as_str()) || v.msg.contains(m.as_str())) {
            shown_known.insert(d.clone());
            continue;
        }
        nviol += n;
        code = 1;
        shown += 1;
        if shown > 6 {
            continue;
        }
        let p = write_replay(prop, v);
        println!("VIOLATION property={} replay={}", prop, p.display());
        println!("  {} (seen {} times)", v.msg.lines().next().unwrap_or("").chars().take(600).collect::<String>(), n);
    }
    for d in known.iter().map(|x| &x.1) {
        if shown_known.contains(d) {
            println!("KNOWN-FINDING: property={} {}", prop, d);
        }
    }
    let s = &rep.stats;
    if code == 0 && (rep.cases == 0 || s.distinct.is_empty()) {
        println!("check observed nothing: {} cases, {} distinct behaviours", rep.cases, s.distinct.len());
        code = 3;
    }
    let mut j = String::new();
    let map = |m: &BTreeMap<&'static str, u64>| -> String {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","))
    };
    let fams: BTreeMap<&'static str, u64> = s.fam.iter().filter(|(k, _)| **k == prop).map(|(k, v)| (*k, *v)).collect();
    let rule = rep
        .phases
        .iter()
        .map(|(n, c, _, r)| format!("{} ({} cases): {}", n, c, r))
        .collect::<Vec<_>>()
        .join(" | ");
    let mut samples: Vec<String> = s.samples.iter().take(6).map(|x| jstr(x)).collect();
    if samples.is_empty() {
        samples.push(jstr(&format!("counters: {:?}", s.notes)));
    }
    j.push_str(&format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{},\n\"level\":{},\n\"coverage\":{{\n",
        jstr(prop),
        jstr(tier()),
        seed0(),
        jstr(if prop == "P18" { "fault_enumeration" } else { "exploration" })
    ));
    j.push_str(&format!(" \"evaluations\":{},\n \"distinct_nontrivial\":{},\n", rep.cases, s.distinct.len()));
    j.push_str(&format!(
        " \"rule\":{},\n",
        jstr(&format!(
            "{} || a behaviour counts as distinct and non-trivial by the hash of (input, transmitted bytes, target calls, resulting state) if the target was called, data was replied or the state changed; for properties about particular commands only those commands count; counting stops at {} per worker",
            rule,
            crate::engine::DISTINCT_CAP
        ))
    ));
    j.push_str(&format!(" \"samples\":[{}],\n", samples.join(",\n  ")));
    j.push_str(&format!(
        " \"phases\":[{}],\n",
        rep.phases
            .iter()
            .map(|(n, c, t, _)| format!("{{\"name\":{},\"cases\":{},\"wall_s\":{:.2}}}", jstr(n), c, t))
            .collect::<Vec<_>>()
            .join(",")
    ));
    j.push_str(&format!(
        " \"sessions\":{},\n \"steps_judged\":{},\n \"steps_of_this_property\":{},\n \"target_configurations\":{},\n \"target_events\":{},\n \"target_calls\":{},\n \"packets_parsed\":{},\n \"bytes_sent\":{},\n \"bytes_received\":{},\n \"rle_runs\":{},\n \"acks\":{},\n \"flushes\":{},\n",
        s.sessions,
        s.steps,
        fams.get(prop).copied().unwrap_or(0),
        s.cfgs.len(),
        s.events,
        s.target_calls,
        s.packets,
        s.bytes_in,
        s.bytes_out,
        s.rle_runs,
        s.acks,
        s.flushes
    ));
    j.push_str(&format!(
        " \"session_ends\":{{{}}},\n",
        s.ends.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",")
    ));
    j.push_str(&format!(" \"faults_injected\":{},\n", map(&s.faults)));
    j.push_str(&format!(" \"commands\":{},\n", map(&s.labels)));
    j.push_str(&format!(" \"counters\":{}", map(&s.notes)));
    for (k, v) in &rep.extra {
        j.push_str(&format!(",\n {}:{}", jstr(k), v));
    }
    if !rep.other.is_empty() {
        j.push_str(&format!(
            ",\n \"failures_of_other_properties\":[{}]",
            rep.other
                .iter()
                .take(20)
                .map(|(k, (n, e))| jstr(&format!("{} x{} e.g. {}", k, n, e)))
                .collect::<Vec<_>>()
                .join(",")
        ));
    }
    j.push_str(&format!(
        "\n}},\n\"assumptions\":[{}],\n\"wall_s\":{:.2},\n\"violations\":{}\n}}\n",
        rep.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        nviol
    ));
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    write_atomic(&dir.join(format!("{}.json", prop)), j.as_bytes());
    let _ = std::fs::remove_file(cur_path(prop));
    if code == 0 {
        println!(
            "{}: held on {} cases ({} steps, {} distinct behaviours) in {:.1} s",
            prop,
            rep.cases,
            s.steps,
            s.distinct.len(),
            t0.elapsed().as_secs_f64()
        );
    }
    let _ = std::io::stdout().flush();
    code
}

fn write_atomic(p: &Path, b: &[u8]) {
    let t = p.with_extension("tmp");
    if std::fs::write(&t, b).is_ok() {
        let _ = std::fs::rename(&t, p);
    }
}
