//! The checks: which phases decide which property.
use crate::drive::*;
use crate::engine::*;
use crate::runner::*;
use crate::session::*;
use crate::target::*;
use crate::util::*;
use std::time::Instant;

fn sessions(prop: &'static str, seed: u64, hb: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let p = gen_plan(prop, seed);
    let o = run_plan(&p, hb);
    (o.fails, o.stat)
}

fn fail(tags: &[&'static str], label: &'static str, msg: String) -> Fail {
    Fail { tags: tags.to_vec(), label, msg }
}

fn show_rec(r: &Rec) -> String {
    format!(
        "{} {} -> [{}] flushed {} calls {:?} state {:?}",
        r.label,
        show(&r.input),
        show(&r.out),
        r.flushed,
        r.evs,
        r.st
    )
}

/// Compare two transcripts of the same script with `eq`; returns a description
/// of the first difference.
fn diff(a: &Out, b: &Out, eq: &dyn Fn(&Rec, &Rec) -> bool) -> Option<String> {
    for i in 0..a.recs.len().max(b.recs.len()) {
        match (a.recs.get(i), b.recs.get(i)) {
            (Some(x), Some(y)) if eq(x, y) => {}
            (x, y) => {
                let s = |r: Option<&Rec>| r.map(show_rec).unwrap_or_else(|| "(session over)".into());
                return Some(format!("step {}:\n  A: {}\n  B: {}", i, s(x), s(y)));
            }
        }
    }
    None
}

/// P28: concrete values against trait objects
fn wraps(prop: &'static str, seed: u64, hb: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let mut p = gen_plan(prop, seed);
    p.record = true;
    let a = run_plan(&p, hb);
    let mut stat = a.stat;
    let mut fails = vec![];
    let a = Out { stat: Stats::default(), ..a };
    let k = mix(seed, 5) as usize;
    for j in 0..2 {
        p.wrap = WRAPS[1 + (k + j * 3) % (WRAPS.len() - 1)];
        let b = run_plan(&p, hb);
        stat.note("transcripts_compared", 1);
        stat.note("steps_compared", b.recs.len() as u64);
        let d = diff(&a, &b, &|x, y| x == y).or_else(|| {
            if a.optrace != b.optrace {
                Some("order of connection operations differs".into())
            } else if a.starts != b.starts {
                Some(format!("connection set-up ran {} / {} times", a.starts, b.starts))
            } else {
                None
            }
        });
        if let Some(d) = d {
            fails.push(fail(&["P28"], "wrap", format!("session through {:?} differs from the concrete one: {}", p.wrap, d)));
            break;
        }
    }
    (fails, stat)
}

/// P17: default methods do what they are documented to do
fn defaults(prop: &'static str, seed: u64, hb: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let mut r = Rng::new(mix(seed, 0xdef));
    let mut p = gen_plan(prop, seed);
    crate::mini::restrict(&mut p.cfg);
    p.cfg.set(F::BP, true);
    p.cfg.set(F::SW, true);
    p.fault = 0;
    if r.chance(1, 2) {
        p.raw = true;
        p.steps = 0;
    }
    p.record = true;
    let a = run_plan(&p, hb);
    let mut stat = a.stat;
    let a = Out { stat: Stats::default(), ..a };
    let mut fails = vec![];
    p.wrap = Wrap::Mini;
    let b = run_plan(&p, hb);
    stat.note("transcripts_compared", 1);
    stat.note("steps_compared", b.recs.len() as u64);
    if let Some(d) = diff(&a, &b, &|x, y| x.out == y.out && x.st == y.st && x.evs == y.evs) {
        fails.push(fail(
            &["P17"],
            "defaults",
            format!("a target relying on default methods (B) behaves unlike one that spells out the documented defaults (A): {} {}", d, b.fails.first().map(|f| format!("[B: {}]", f.msg)).unwrap_or_default()),
        ));
    }
    (fails, stat)
}

/// P13: a signal given with an action for all threads (the form a client uses which
/// doesn't care about thread ids) either reaches a thread or the request is refused
fn default_sig(_prop: &'static str, seed: u64, _hb: &dyn Fn()) -> (Vec<Fail>, Stats) {
    use crate::conn::Conn;
    use crate::drive::{with_bits, BufCfg};
    let mut r = Rng::new(mix(seed, 0x51c));
    let mut cfg = Cfg::all();
    cfg.set(F::RLE, false);
    cfg.set(F::STEP, r.chance(1, 2));
    let mut w = World::new(cfg, seed);
    let n = r.range(1, 4) as usize;
    w.threads = (1..=n).collect();
    let w = std::rc::Rc::new(std::cell::RefCell::new(w));
    let sig = r.range(1, 40) as u64;
    let named = if n > 1 { r.below(n) } else { 0 };
    let mut acts: Vec<String> = (1..=named).map(|t| format!("c:{:x}", t)).collect();
    acts.push(format!("C{:02x}{}", sig, r.pick(&["", ":-1", ":p-1.-1", ":p1.-1"])));
    let body = format!("vCont;{}", acts.join(";"));
    let mut st = String::new();
    let bits = *r.pick(&[16, 32, 64]);
    with_bits(bits, w.clone(), Conn::new().0, BufCfg { owned: true, len: 4096, fill: 0, explicit: false }, Wrap::Plain, &mut |s| {
        for b in crate::wire::frame(body.as_bytes()) {
            if *s.st() == St::Idle {
                s.feed(b);
            }
        }
        st = format!("{:?}", s.st());
    });
    let mut stat = Stats::default();
    stat.sessions = 1;
    stat.steps = 1;
    let w = w.borrow();
    stat.events += w.log.len() as u64;
    stat.note("default_signals_requested", 1);
    let resumed = w.log.iter().any(|e| e.op == "mt_resume");
    let got: Vec<i64> = w.log.iter().filter(|e| e.op == "mt_cont" && e.n.first() == Some(&sig)).map(|e| e.t).collect();
    stat.distinct.insert(mix(n as u64 * 64 + named as u64, (resumed as u64) * 2 + got.len() as u64));
    let mut fails = vec![];
    let named_got = got.iter().any(|t| *t >= 1 && *t <= named as i64);
    if named_got {
        fails.push(fail(&["P13"], "vCont-default", format!("vCont: the signal of the default action was given to a thread with an action of its own [{}] {:?}", body, w.log)));
    } else if resumed && got.is_empty() {
        fails.push(fail(&["P13"], "vCont-default", format!("vCont: target resumed without the signal of the action for all threads [{}]", body)));
    }
    (fails, stat)
}

fn strip_size(p: &[u8]) -> Vec<u8> {
    if p.starts_with(b"PacketSize=") {
        let i = p.iter().position(|c| *c == b';').unwrap_or(p.len());
        return p[i..].to_vec();
    }
    p.to_vec()
}

/// P06: same script, different buffers and noise
fn buffers(prop: &'static str, seed: u64, hb: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let mut r = Rng::new(mix(seed, 0xb0f));
    let mut p = gen_plan(prop, seed);
    p.record = true;
    let mut fails = vec![];
    let same_size = r.chance(1, 2);
    let min = *r.pick(&[100usize, 120, 200, 400, 1000]);
    if !same_size {
        p.small = true;
        p.limit = min - 4;
        p.buf.len = min + if r.chance(1, 2) { 0 } else { r.below(3000) };
    } else {
        p.limit = p.buf.len - 4;
    }
    let base = p.clone();
    let a = run_plan(&p, hb);
    let mut stat = a.stat;
    let a = Out { stat: Stats::default(), ..a };
    for _ in 0..2 {
        p = base.clone();
        p.buf.owned = r.chance(1, 2) && !no_alloc();
        p.buf.fill = r.next() as u8;
        p.buf.explicit = r.chance(1, 2);
        p.noise = r.chance(1, 2);
        if !same_size {
            p.buf.len = match r.below(4) {
                0 => min,
                1 => r.range(min, min + 30),
                2 => 4096,
                _ => r.range(min, 6000),
            };
        }
        let b = run_plan(&p, hb);
        stat.note("transcripts_compared", 1);
        stat.note("steps_compared", b.recs.len() as u64);
        stat.note(if same_size { "pairs_same_size" } else { "pairs_different_size" }, 1);
        let d = diff(&a, &b, &|x, y| {
            x.evs == y.evs
                && x.st == y.st
                && x.dec.len() == y.dec.len()
                && x.dec.iter().zip(&y.dec).all(|(i, j)| i == j || (!same_size && strip_size(i) == strip_size(j)))
        });
        if let Some(d) = d {
            fails.push(fail(
                &["P06"],
                "buffer-variant",
                format!("replies depend on the buffer [{:?} noise {} against {:?} noise {}]: {}", base.buf, base.noise, p.buf, p.noise, d),
            ));
            break;
        }
    }
    (fails, stat)
}

/// P02: same session with and without run-length encoding
fn rle_pair(prop: &'static str, seed: u64, hb: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let mut p = gen_plan(prop, seed);
    p.record = true;
    p.cfg.set(F::RLE, true);
    let a = run_plan(&p, hb);
    let mut fails = a.fails.clone();
    p.cfg.set(F::RLE, false);
    let b = run_plan(&p, hb);
    let mut stat = a.stat;
    let a = Out { stat: Stats::default(), ..a };
    stat.note("transcripts_compared", 1);
    stat.note("steps_compared", b.recs.len() as u64);
    fails.extend(b.fails.clone());
    if let Some(d) = diff(&a, &b, &|x, y| x.dec == y.dec && x.evs == y.evs && x.st == y.st) {
        fails.push(fail(&["P02"], "rle-pair", format!("decoded replies differ with RLE on (A) and off (B): {}", d)));
    }
    (fails, stat)
}

/// P18: the connection fails at some operation
fn conn_faults(prop: &'static str, seed: u64, hb: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let mut r = Rng::new(mix(seed, 0xfa11));
    let mut p = gen_plan(prop, seed);
    p.steps = r.range(1, 6);
    p.fault = if r.chance(1, 3) { 15 } else { 0 };
    p.record = true;
    let a = run_plan(&p, hb);
    let mut stat = a.stat;
    let mut fails = vec![];
    let n = a.ops;
    if n == 0 {
        return (fails, stat);
    }
    // every operation if there are few, a sample otherwise
    let mut at: Vec<usize> = (0..n).collect();
    if n > 60 {
        at = (0..40).map(|_| r.below(n)).collect();
        // flushes are the rarer operations
        let fl: Vec<usize> = a.optrace.iter().filter(|c| **c != b's').enumerate().filter(|(_, c)| **c == b'f').map(|(i, _)| i).collect();
        for i in fl.iter().take(20) {
            at.push(*i);
        }
    }
    for k in at {
        let code = r.next() as u32;
        p.fail_at = Some((k, code));
        let b = run_plan(&p, hb);
        stat.note("connection_faults", 1);
        *stat.faults.entry("connection").or_default() += 1;
        if b.failed != Some(code) {
            fails.push(fail(&["P18"], "conn-fault", format!("operation {} of {} was not reached again", k, n)));
            break;
        }
        let step = b.trace.last().cloned().unwrap_or_default();
        let cmd = step.split(':').next().unwrap_or("").to_string();
        let bad = match &b.last {
            St::Err(e) => match e.kind {
                EK::Conn(c, 'w') if c == code => e.bad.clone(),
                // the target failed too before the command was over: either
                // party may be told
                EK::Target(_) => e.bad.clone(),
                _ => Some(format!("{}: session ended with {:?} instead of the write error", cmd, e.kind)),
            },
            s => Some(format!("{}: a write error was swallowed, state {:?}", cmd, s)),
        };
        let bad = bad.or_else(|| {
            if b.flush_after_fail > 0 && cmd != "qRcmd" {
                Some(format!("{}: output flushed after a failed connection operation", cmd))
            } else {
                None
            }
        });
        if let Some(m) = bad {
            let t: Vec<String> = b.trace.iter().rev().take(3).cloned().collect();
            fails.push(fail(&["P18"], "conn-fault", format!("{} [failing operation {} of {}, error {}]\n last steps {:?}", m, k, n, code, t)));
            break;
        }
        stat.distinct.insert(mix(seed, k as u64));
    }
    (fails, stat)
}

const R_SESS: &str = "randomized client session against the real state machine over a mock target implementing every extension trait (random feature set, buffer, threading model, fault plan); each step carries the exact target calls, reply packets and state it must produce";
const R_WRAP: &str = "one session run with concrete target and connection and again through trait objects; full transcripts compared";
const R_BUF: &str = "one session run with two or more packet buffer variants (kind, size, stale content, '+' noise); transcripts compared";
const R_DEF: &str = "one session or raw byte stream run against a target that implements only required methods and against the mock spelling out the documented defaults; transcripts compared";
const R_RLE: &str = "one session run with run-length encoding on and off; decoded transcripts compared";
const R_CF: &str = "one short session re-run with a connection failure at every operation index (sampled when there are more than 60)";

const R_REGS: &str = "for each of the 13 built-in architectures: one random register file serialized, compared byte by byte with an independent layout table, deserialized over other contents, random client bytes written and read back, truncated and random input";
const R_IDS: &str = "all register numbers up to 0x11000 plus random 64-bit ones against the table, target descriptions parsed and compared (names, numbers, widths), 872 AArch64 system registers, breakpoint kinds 0..70000 plus random";

const R_RAW: &str = "a random client byte stream (packets from 150 templates with random fields, mutated, damaged, truncated, interleaved with interrupts and noise) over buffers of 0 bytes and up, random stops, interrupt answers and target failures, judged byte by byte by an independent receiver";
const R_RAWLOG: &str = "as phase raw, with trace-level logging enabled and every message formatted";
const R_SOCK: &str = "one connected TCP or Unix socket pair and a random script of client sends, end of input, stub reads, peeks, writes, flushes and client reads, judged against two byte queues; peeks must be prompt, reads must wait";
const R_DSIG: &str = "vCont packets whose last action continues all (remaining) threads with a signal, 1 to 4 threads, with and without preceding per-thread actions";
const R_SIG: &str = "one of the 256 signal numbers: the named constant for it has that number, and its description names it";
const R_BULK: &str = "up to 200 kB written through small socket buffers to a client that reads slowly, with interleaved peeks and reads of a second stream; both streams compared at the end";
const R_SSESS: &str = "one random client stream and target schedule run with run_blocking over a real socket pair (event loop using peek) and over the recording in-memory connection; received bytes, target calls and end compared";
const R_BLK: &str = "one random client byte stream, target schedule (data, stops, errors), interrupt answers and connection faults run through run_blocking and through the state machine driven by hand; bytes, flushes, order of reads/waits/interrupts/writes, target calls and end compared";
const R_SETUP: &str = "one random builder configuration, target feature set and connection set-up outcome: build result, session start result, connection use before traffic, advertised and usable buffer size, bytes beyond the requested size";

const R_GDB: &str = "one generated GDB command script run by a stock GDB over TCP or a Unix socket against a simulated x86-64 machine and, command by command, against a shadow machine; printed values, messages, files and the final machine state compared";

pub fn phases(prop: &'static str, deep: bool) -> Vec<Phase> {
    let k = if deep { 40 } else { 3 };
    let mut v = match prop {
        "P02" => vec![phase("sessions", 60_000 * k, sessions, R_SESS), phase("rle", 25_000 * k, rle_pair, R_RLE)],
        "P06" => vec![phase("sessions", 40_000 * k, sessions, R_SESS), phase("buffers", 30_000 * k, buffers, R_BUF)],
        "P18" => vec![phase("sessions", 70_000 * k, sessions, R_SESS), phase("connfault", 2_000 * k, conn_faults, R_CF)],
        "P28" => vec![phase("wraps", 40_000 * k, wraps, R_WRAP)],
        "P10" => vec![phase("regs", 60_000 * k, crate::p10::regs, R_REGS), phase("tables", 64 * k, crate::p10::ids, R_IDS)],
        "P27" => vec![phase("blocking", 80_000 * k, crate::p27::blocking, R_BLK)],
        "P30" => vec![phase("setup", 200_000 * k, crate::p30::setup, R_SETUP), phase("sessions", 10_000 * k, sessions, R_SESS)],
        #[cfg(all(feature = "std", not(feature = "paranoid")))]
        "P31" => vec![
            phase("ops", 4_000 * k, crate::p31::ops, R_SOCK),
            phase("bulk", 200 * k, crate::p31::bulk, R_BULK),
            phase("sockets", 4_000 * k, crate::p31::sock_session, R_SSESS),
        ],
        "P32" => vec![],
        #[cfg(all(feature = "std", not(feature = "paranoid")))]
        "P33" => vec![phase("gdb", 1_000 * k, crate::gdbcli::gdb, R_GDB)],
        _ => vec![phase("sessions", 100_000 * k, sessions, R_SESS)],
    };
    if matches!(prop, "P01" | "P03" | "P04" | "P05") {
        v.push(phase("raw", 60_000 * k, crate::fuzz::raw, R_RAW));
    }
    if prop == "P13" {
        v.push(phase("defaultsig", 2_000, default_sig, R_DSIG));
    }
    if prop == "P14" {
        v.push(phase("signals", 4_000, crate::sigcheck::case, R_SIG));
    }
    if prop == "P17" {
        v.push(phase("defaults", 20_000 * k, defaults, R_DEF));
    }
    if prop == "P03" {
        v[0].n /= 2;
        // the log statements are library code as well
        let mut p = phase("rawlog", 20_000 * k, crate::fuzz::raw, R_RAWLOG);
        p.trace_log = true;
        v.push(p);
    }
    v
}

pub fn one(prop: &'static str, ph: &str, seed: u64) -> (Vec<Fail>, Stats) {
    for deep in [false, true] {
        for p in phases(prop, deep) {
            if p.name == ph {
                trace_log(p.trace_log);
                return (p.f)(prop, seed, &|| {});
            }
        }
    }
    panic!("no phase {} of {}", ph, prop)
}

pub fn run(prop: &'static str) -> i32 {
    let t0 = Instant::now();
    if prop == "P32" {
        return crate::p32::run(prop);
    }
    let mut rep = Report::default();
    rep.assumptions.push("the mock target behaves as a conforming implementation of the extension traits".into());
    for p in phases(prop, tier() == "thorough") {
        if run_phase(prop, &p, &mut rep).is_err() {
            break;
        }
    }
    if prop == "P03" {
        crate::san::run(&mut rep);
    }
    finish(prop, rep, t0)
}
