//! Session engine: feeds inputs to the real stub, observes everything it does
//! and compares with the expectation attached to each step.
use crate::conn::CLog;
use crate::drive::*;
use crate::target::*;
use crate::util::*;
use crate::wire::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

pub const R_ALL: i64 = -3;

#[derive(Clone, Debug)]
pub struct Model {
    pub cfg: Cfg,
    pub bits: u32,
    /// current size of the packet buffer
    pub buflen: usize,
    pub owned: bool,
    pub noack: bool,
    pub multiproc: bool,
    /// candidates for the thread selected for memory/register access
    pub mem: Vec<i64>,
    /// candidates for the thread selected for resumption (R_ALL = all)
    pub res: Vec<i64>,
    /// deferred interrupt reasons (any of them acceptable)
    pub deferred: Vec<Stop>,
    /// limit for the length of generated command bodies
    pub limit: usize,
    /// keep data small so that replies don't depend on the buffer size
    pub small: bool,
}

impl Model {
    pub fn has(&self, f: F) -> bool {
        self.cfg.has(f)
    }
    pub fn multi(&self) -> bool {
        self.cfg.has(F::MULTI)
    }
    pub fn memt(&self) -> i64 {
        if !self.multi() {
            0
        } else if self.mem.len() == 1 {
            self.mem[0]
        } else {
            T_ANY
        }
    }
    pub fn max_addr(&self) -> u64 {
        if self.bits == 64 {
            u64::MAX
        } else {
            (1u64 << self.bits) - 1
        }
    }
}

pub enum Input {
    Cmd(Vec<u8>),
    Raw(Vec<u8>),
    Stop(Stop),
    Int(Option<Stop>),
    ToIdle,
}

pub type EvFn = Box<dyn Fn(&[Ev]) -> Result<(), String>>;
pub type PkFn = Box<dyn Fn(&[Ev], &[Vec<u8>]) -> Result<(), String>>;

pub enum XE {
    Exact(Vec<Ev>),
    Fn(EvFn),
    Any,
}
pub enum XP {
    Exact(Vec<Vec<u8>>),
    Fn(PkFn),
    Any,
}
#[derive(Clone, Debug, PartialEq)]
pub enum XS {
    Idle,
    Running,
    CtrlC,
    Disc(Why),
    Target(u32),
    Conn(u32, char),
    /// an error that is neither a target nor a connection error
    Proto,
    /// refused: protocol error, or an empty / error reply
    Reject,
    Any,
}

pub struct Step {
    pub label: &'static str,
    pub fam: Vec<&'static str>,
    pub input: Input,
    pub ev: XE,
    pub pk: XP,
    pub st: XS,
}

impl Step {
    pub fn cmd(label: &'static str, fam: &[&'static str], body: impl Into<Vec<u8>>) -> Step {
        Step {
            label,
            fam: fam.to_vec(),
            input: Input::Cmd(body.into()),
            ev: XE::Exact(vec![]),
            pk: XP::Exact(vec![vec![]]),
            st: XS::Idle,
        }
    }
    pub fn raw(label: &'static str, fam: &[&'static str], bytes: impl Into<Vec<u8>>) -> Step {
        Step {
            label,
            fam: fam.to_vec(),
            input: Input::Raw(bytes.into()),
            ev: XE::Exact(vec![]),
            pk: XP::Exact(vec![]),
            st: XS::Idle,
        }
    }
    pub fn input(label: &'static str, fam: &[&'static str], input: Input) -> Step {
        Step { label, fam: fam.to_vec(), input, ev: XE::Exact(vec![]), pk: XP::Exact(vec![]), st: XS::Idle }
    }
    pub fn tag(mut self, t: &'static str) -> Step {
        self.fam.push(t);
        self
    }
    pub fn ev(mut self, e: Ev) -> Step {
        if let XE::Exact(v) = &mut self.ev {
            v.push(e);
        }
        self
    }
    pub fn evs(mut self, e: Vec<Ev>) -> Step {
        self.ev = XE::Exact(e);
        self
    }
    pub fn evf(mut self, f: impl Fn(&[Ev]) -> Result<(), String> + 'static) -> Step {
        self.ev = XE::Fn(Box::new(f));
        self
    }
    pub fn reply(mut self, b: impl Into<Vec<u8>>) -> Step {
        self.pk = XP::Exact(vec![b.into()]);
        self
    }
    pub fn pkf(mut self, f: impl Fn(&[Ev], &[Vec<u8>]) -> Result<(), String> + 'static) -> Step {
        self.pk = XP::Fn(Box::new(f));
        self
    }
    /// one packet, judged by `f`
    pub fn replyf(self, f: impl Fn(&[Ev], &[u8]) -> Result<(), String> + 'static) -> Step {
        self.pkf(move |e, p| {
            if p.len() != 1 {
                return Err(format!("expected exactly one reply packet, got {}", p.len()));
            }
            f(e, &p[0])
        })
    }
    pub fn none(mut self) -> Step {
        self.pk = XP::Exact(vec![]);
        self
    }
    pub fn ok(self) -> Step {
        self.reply("OK")
    }
    pub fn err(self, code: u8) -> Step {
        self.reply(format!("E{:02x}", code))
    }
    pub fn some_err(self) -> Step {
        self.replyf(|_, p| if is_err(p) { Ok(()) } else { Err(format!("expected an error reply, got {:?}", show(p))) })
    }
    pub fn st(mut self, s: XS) -> Step {
        self.st = s;
        self
    }
    pub fn running(self) -> Step {
        self.none().st(XS::Running)
    }
    /// the request must be refused without reaching the target
    pub fn reject(mut self) -> Step {
        self.st = XS::Reject;
        self.pk = XP::Any;
        self
    }
    /// expectation for an injected failure: error reply or fatal target error
    pub fn fault(mut self, k: FailKind) -> Step {
        self.fam.push("P18");
        match k {
            FailKind::Fatal(c) => {
                self.st = XS::Target(c);
                self.pk = XP::Any;
                self
            }
            k => self.err(k.code().unwrap()),
        }
    }
}

pub fn is_err(p: &[u8]) -> bool {
    p.len() == 3 && p[0] == b'E' && p[1..].iter().all(|c| c.is_ascii_hexdigit())
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub tags: Vec<&'static str>,
    pub label: &'static str,
    pub msg: String,
}

#[derive(Default)]
pub struct Stats {
    pub sessions: u64,
    pub steps: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub fam: BTreeMap<&'static str, u64>,
    pub events: u64,
    pub packets: u64,
    pub bytes_out: u64,
    pub bytes_in: u64,
    pub rle_runs: u64,
    pub acks: u64,
    pub flushes: u64,
    pub target_calls: u64,
    pub ends: BTreeMap<String, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub cfgs: HashSet<u64>,
    pub notes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn note(&mut self, k: &'static str, n: u64) {
        *self.notes.entry(k).or_default() += n;
    }
    pub fn merge(&mut self, o: Stats) {
        self.sessions += o.sessions;
        self.steps += o.steps;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.fam {
            *self.fam.entry(k).or_default() += v;
        }
        self.events += o.events;
        self.packets += o.packets;
        self.bytes_out += o.bytes_out;
        self.bytes_in += o.bytes_in;
        self.rle_runs += o.rle_runs;
        self.acks += o.acks;
        self.flushes += o.flushes;
        self.target_calls += o.target_calls;
        for (k, v) in o.ends {
            *self.ends.entry(k).or_default() += v;
        }
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.notes {
            *self.notes.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        self.cfgs.extend(o.cfgs);
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s)
            }
        }
    }
}

/// One entry of a session transcript, used by the differential checks.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub input: Vec<u8>,
    pub label: &'static str,
    pub out: Vec<u8>,
    pub dec: Vec<Vec<u8>>,
    pub flushed: usize,
    pub evs: Vec<Ev>,
    pub st: St,
}

/// bound for the number of distinct behaviours counted per worker
pub const DISTINCT_CAP: usize = 1_000_000;

pub struct Ctx<'s> {
    /// property under check if it is about particular command families
    pub focus: &'static str,
    pub r: Rng,
    pub w: Shared,
    pub c: Rc<RefCell<CLog>>,
    pub s: &'s mut dyn Sess,
    pub m: Model,
    pub fails: Vec<Fail>,
    pub stat: Stats,
    pub trace: Vec<String>,
    pub recs: Option<Vec<Rec>>,
    /// percent of steps with an injected target failure
    pub fault: usize,
    /// inject '+' noise between packets
    pub noise: bool,
    /// separate generator for the noise, so that it doesn't influence the
    /// generated commands
    pub nr: Rng,
    pub dead: bool,
    pub heartbeat: Option<&'s dyn Fn()>,
    /// results of the last step
    pub last_evs: Vec<Ev>,
    pub last_pk: Vec<Vec<u8>>,
}

pub fn ev_match(exp: &Ev, got: &Ev, m: &Model) -> Result<(), (bool, String)> {
    let tid_ok = if exp.t == T_ANY {
        let c = if is_resume_op(exp.op) { &m.res } else { &m.mem };
        c.contains(&got.t)
    } else {
        exp.t == got.t
    };
    if exp.op != got.op || exp.n != got.n || exp.b != got.b {
        return Err((false, format!("expected target call [{:?}], got [{:?}]", exp, got)));
    }
    if !tid_ok {
        return Err((true, format!("expected thread of [{:?}], got [{:?}]", exp, got)));
    }
    Ok(())
}
/// the same stop reply, up to the order of its fields and leading zeros; a `T`
/// without fields says what an `S` does
fn same_stop(a: &[u8], b: &[u8]) -> bool {
    fn norm(p: &[u8]) -> Option<(u8, Vec<(&str, &str)>)> {
        let s = std::str::from_utf8(p).ok()?;
        let sig = u8::from_str_radix(s.get(1..3)?, 16).ok()?;
        let mut v = vec![];
        match s.as_bytes()[0] {
            b'S' if s.len() == 3 => {}
            b'T' => {
                if s.len() > 3 {
                    for f in s[3..].strip_suffix(';')?.split(';') {
                        let (k, x) = f.split_once(':')?;
                        v.push((k, if k.contains("watch") || k.starts_with("syscall") { x.trim_start_matches('0') } else { x }));
                    }
                }
                v.sort();
            }
            _ => return None,
        }
        Some((sig, v))
    }
    matches!((norm(a), norm(b)), (Some(a), Some(b)) if a == b)
}

pub fn is_resume_op(op: &str) -> bool {
    op.starts_with("mt_") || op == "rev_step"
}

impl<'s> Ctx<'s> {
    pub fn fail(&mut self, tags: Vec<&'static str>, label: &'static str, msg: String) {
        self.dead = true;
        let t = self.trace.len().saturating_sub(12);
        let ctx = self.trace[t..].join("\n    ");
        self.fails.push(Fail { tags, label, msg: format!("{}\n  last steps:\n    {}", msg, ctx) });
    }
    pub fn alive(&self) -> bool {
        !self.dead
    }
    pub fn idle(&self) -> bool {
        !self.dead && *self.s.st() == St::Idle
    }
    pub fn world(&self) -> std::cell::RefMut<'_, World> {
        self.w.borrow_mut()
    }

    /// Draw an injected failure for target operation `op`.
    pub fn draw_fault(&mut self, op: &'static str, fatal_only: bool) -> Option<FailKind> {
        if self.fault == 0 || !self.r.chance(self.fault, 100) {
            return None;
        }
        let k = match self.r.below(if fatal_only { 1 } else { 6 }) {
            0 => {
                if !fatal_only && !self.r.chance(1, 3) {
                    FailKind::NonFatal
                } else {
                    FailKind::Fatal(self.r.next() as u32)
                }
            }
            1 => FailKind::NonFatal,
            2 | 3 => FailKind::Errno(self.r.next() as u8),
            4 => FailKind::IoRaw(*self.r.pick(&[1, 2, 5, 11, 22, 104, 121, 133, 255])),
            _ => FailKind::IoKind(0),
        };
        self.w.borrow_mut().fails.push((op, 0, k));
        *self.stat.faults.entry(op).or_default() += 1;
        Some(k)
    }

    pub fn inject(&mut self, op: &'static str, skip: usize, k: FailKind) {
        self.w.borrow_mut().fails.push((op, skip, k));
        *self.stat.faults.entry(op).or_default() += 1;
    }

    fn feed_bytes(&mut self, bytes: &[u8]) -> usize {
        let mut n = 0;
        for b in bytes {
            match self.s.st() {
                St::Idle | St::Running => {
                    self.s.feed(*b);
                    n += 1;
                }
                _ => break,
            }
        }
        n
    }

    /// Execute one step; returns false once the session cannot continue.
    pub fn exec(&mut self, step: Step) -> bool {
        if self.dead {
            return false;
        }
        if let Some(h) = self.heartbeat {
            h()
        }
        self.stat.steps += 1;
        *self.stat.labels.entry(step.label).or_default() += 1;
        for f in &step.fam {
            *self.stat.fam.entry(f).or_default() += 1;
        }
        let before_state = self.s.st().clone();
        // acknowledgement noise
        if self.noise && matches!(before_state, St::Idle | St::Running) {
            let k = match self.nr.below(4) {
                0 => 1 + self.nr.below(3),
                _ => 0,
            };
            if k > 0 {
                let o = self.c.borrow().out.len();
                self.feed_bytes(&vec![b'+'; k]);
                if *self.s.st() != before_state || self.c.borrow().out.len() != o {
                    self.fail(
                        vec!["P06", "P05"],
                        step.label,
                        format!("client '+' changed the session: {:?} -> {:?}", before_state, self.s.st()),
                    );
                    return false;
                }
                self.stat.note("ack_noise_bytes", k as u64);
            }
        }
        let out0 = self.c.borrow().out.len();
        let fl0 = self.c.borrow().flushes.len();
        self.w.borrow_mut().log.clear();
        let calls0 = self.w.borrow().calls;
        let mut early = None;
        let desc;
        let mut is_cmd = false;
        let fed: Vec<u8>;
        match &step.input {
            Input::Cmd(body) => {
                is_cmd = true;
                let mut fr = frame(body);
                if self.nr.chance(1, 3) {
                    let l = fr.len();
                    for b in &mut fr[l - 2..] {
                        *b = b.to_ascii_uppercase();
                    }
                }
                desc = format!("{}: {}", step.label, show(body));
                self.trace.push(desc.clone());
                if self.m.owned {
                    self.m.buflen = self.m.buflen.max(fr.len());
                }
                let (a, b) = fr.split_at(fr.len() - 1);
                let n = self.feed_bytes(a);
                let o1 = self.c.borrow().out.len();
                let e1 = self.w.borrow().log.len();
                if n < a.len() || o1 != out0 || e1 != 0 || *self.s.st() != before_state {
                    early = Some(format!(
                        "stub reacted before the packet was complete (after {} of {} bytes): state {:?}, {} bytes written, {} target calls",
                        n, fr.len(), self.s.st(), o1 - out0, e1
                    ));
                }
                self.feed_bytes(b);
                self.stat.bytes_in += fr.len() as u64;
                fed = fr;
            }
            Input::Raw(b) => {
                desc = format!("{}: raw {}", step.label, show(b));
                self.trace.push(desc.clone());
                self.feed_bytes(b);
                self.stat.bytes_in += b.len() as u64;
                fed = b.clone();
            }
            Input::Stop(s) => {
                desc = format!("{}: report {:?}", step.label, s);
                self.trace.push(desc.clone());
                self.s.stop(s);
                fed = desc.clone().into_bytes();
            }
            Input::Int(s) => {
                desc = format!("{}: interrupt_handled {:?}", step.label, s);
                self.trace.push(desc.clone());
                self.s.int_handled(s.as_ref());
                fed = desc.clone().into_bytes();
            }
            Input::ToIdle => {
                desc = format!("{}: return_to_idle", step.label);
                self.trace.push(desc.clone());
                self.s.to_idle();
                fed = desc.clone().into_bytes();
            }
        }
        let st = self.s.st().clone();
        let out: Vec<u8> = self.c.borrow().out[out0..].to_vec();
        let evs: Vec<Ev> = std::mem::take(&mut self.w.borrow_mut().log);
        let rle_on = self.m.has(F::RLE);
        let p = parse_tx(&out, rle_on);
        let acks = p.items.iter().filter(|i| **i == Item::Ack).count();
        let pk: Vec<Vec<u8>> = p
            .items
            .iter()
            .filter_map(|i| match i {
                Item::Pkt { dec, .. } => Some(dec.clone()),
                _ => None,
            })
            .collect();
        {
            let t = self.trace.last_mut().unwrap();
            t.push_str(&format!(
                "  -> [{}] calls {:?} state {:?}",
                show(&out),
                if evs.len() > 6 { &evs[..6] } else { &evs },
                st
            ));
        }
        self.stat.events += evs.len() as u64;
        self.stat.packets += pk.len() as u64;
        self.stat.bytes_out += out.len() as u64;
        self.stat.rle_runs += p.rle_runs as u64;
        self.stat.acks += acks as u64;
        self.stat.flushes += (self.c.borrow().flushes.len() - fl0) as u64;
        self.stat.target_calls += self.w.borrow().calls.saturating_sub(calls0);
        {
            let mut h = fnv(0xcbf29ce484222325, &fed);
            h = fnv(h, &out);
            h = fnv(h, format!("{:?}{:?}", evs, st).as_bytes());
            let mine = self.focus.is_empty() || step.fam.contains(&self.focus);
            if mine && self.stat.distinct.len() < DISTINCT_CAP && (!evs.is_empty() || pk.iter().any(|p| !p.is_empty()) || !matches!(st, St::Idle)) {
                self.stat.distinct.insert(h);
            }
        }
        if self.stat.samples.len() < 4 && (self.focus.is_empty() || step.fam.contains(&self.focus)) && (!pk.is_empty() || !evs.is_empty()) && self.nr.chance(1, 40) {
            let s = self.trace.last().unwrap().clone();
            self.stat.samples.push(if s.len() > 400 { format!("{}...", s.chars().take(400).collect::<String>()) } else { s });
        }
        let ended = !matches!(st, St::Idle | St::Running | St::CtrlC);
        if ended {
            let k = match &st {
                St::Disc(w) => format!("{:?}", w).split('(').next().unwrap().to_string(),
                St::Err(e) => match e.kind {
                    EK::Target(_) => "TargetError".into(),
                    EK::Conn(_, k) => format!("ConnError({})", k),
                    EK::Other => "ProtocolError".into(),
                },
                St::Panic(_) => "Panic".into(),
                _ => String::new(),
            };
            *self.stat.ends.entry(k).or_default() += 1;
        }
        let flushed = self.c.borrow().flushes.last().copied().unwrap_or(0);
        if let Some(r) = &mut self.recs {
            r.push(Rec {
                input: fed,
                label: step.label,
                out: out.clone(),
                dec: pk.clone(),
                flushed,
                evs: evs.clone(),
                st: st.clone(),
            });
        }
        let lab = step.label;
        let fam = step.fam.clone();
        let with = |x: &[&'static str]| -> Vec<&'static str> {
            let mut v = x.to_vec();
            for f in &fam {
                if !v.contains(f) {
                    v.push(f)
                }
            }
            v
        };
        // --- panics
        if let St::Panic(msg) = &st {
            let m = format!("panic: {}", msg);
            self.fail(with(&["P03"]), lab, m);
            return false;
        }
        if let St::Err(e) = &st {
            if let Some(b) = &e.bad {
                let b = b.clone();
                self.fail(vec!["P18"], lab, b);
                return false;
            }
        }
        if let Some(e) = early {
            self.fail(with(&["P01", "P04", "P15"]), lab, e);
            return false;
        }
        // --- wire format
        if !p.errs.is_empty() {
            let mut tags: Vec<&'static str> = p.errs.iter().flat_map(|e| e.0.iter().copied()).collect();
            tags.sort();
            tags.dedup();
            let m = p.errs.iter().map(|e| e.1.clone()).collect::<Vec<_>>().join("; ");
            self.fail(tags, lab, format!("malformed transmission: {} in [{}]", m, show(&out)));
            return false;
        }
        let is_errst = matches!(st, St::Err(_));
        if !p.partial.is_empty() && !is_errst {
            self.fail(vec!["P01"], lab, format!("incomplete packet on the wire: [{}]", show(&p.partial)));
            return false;
        }
        // --- acknowledgement
        let want_acks = if is_cmd && !self.m.noack { 1 } else { 0 };
        let ack_ok = if is_errst { acks <= want_acks } else { acks == want_acks };
        if !ack_ok {
            self.fail(
                if want_acks == 0 && is_cmd { vec!["P05"] } else { vec!["P05", "P01"] },
                lab,
                format!("{} acknowledgements sent, expected {}: [{}]", acks, want_acks, show(&out)),
            );
            return false;
        }
        if acks > 0 && p.items[0] != Item::Ack {
            self.fail(vec!["P05", "P01"], lab, format!("acknowledgement not sent before the reply: [{}]", show(&out)));
            return false;
        }
        // --- flush
        if !is_errst && !out.is_empty() && flushed != self.c.borrow().out.len() {
            let m = format!(
                "{} bytes written but not flushed when control returned to the caller (state {:?})",
                self.c.borrow().out.len() - flushed,
                st
            );
            self.fail(vec!["P05"], lab, m);
            return false;
        }
        // --- state
        let st_bad = match (&step.st, &st) {
            (XS::Any, _) => false,
            (XS::Idle, St::Idle) | (XS::Running, St::Running) | (XS::CtrlC, St::CtrlC) => false,
            (XS::Disc(a), St::Disc(b)) => a != b,
            (XS::Target(c), St::Err(e)) => e.kind != EK::Target(*c),
            (XS::Conn(c, k), St::Err(e)) => e.kind != EK::Conn(*c, *k),
            (XS::Proto, St::Err(e)) => e.kind != EK::Other,
            (XS::Reject, St::Err(e)) => e.kind != EK::Other,
            (XS::Reject, St::Idle) => !(pk.len() == 1 && (pk[0].is_empty() || is_err(&pk[0]))),
            _ => true,
        };
        if st_bad {
            let mut tags = with(&[]);
            if matches!(step.st, XS::Target(_) | XS::Conn(..)) || matches!(&st, St::Err(e) if e.kind != EK::Other) {
                tags.push("P18");
            }
            if matches!(step.st, XS::Disc(_)) || matches!(st, St::Disc(_)) {
                tags.push("P26");
            }
            if matches!(&st, St::Err(e) if e.kind == EK::Other) && is_cmd && step.st != XS::Reject {
                tags.push("P04");
            }
            tags.sort();
            tags.dedup();
            self.fail(tags, lab, format!("expected outcome {:?}, got {:?}", step.st, st));
            return false;
        }
        if is_errst && pk.iter().any(|p| p.starts_with(b"OK")) {
            self.fail(with(&["P18"]), lab, "success reply sent although the session failed".into());
            return false;
        }
        // --- target calls
        let evr: Result<(), (bool, String)> = match &step.ev {
            XE::Any => Ok(()),
            XE::Fn(f) => f(&evs).map_err(|e| (false, e)),
            XE::Exact(x) => {
                if x.len() != evs.len() {
                    Err((false, format!("expected target calls {:?}, got {:?}", x, evs)))
                } else {
                    let mut r = Ok(());
                    for (a, b) in x.iter().zip(evs.iter()) {
                        r = ev_match(a, b, &self.m);
                        if r.is_err() {
                            break;
                        }
                        if a.t == T_ANY {
                            if is_resume_op(a.op) {
                                self.m.res = vec![b.t];
                            } else {
                                self.m.mem = vec![b.t];
                            }
                        }
                    }
                    r
                }
            }
        };
        if let Err((tid, m)) = evr {
            let mut t = with(if tid { &["P11"] } else { &[] });
            // a call although none was expected: also a matter of the
            // empty-reply / single-execution guarantees
            if matches!(&step.ev, XE::Exact(x) if x.is_empty()) {
                t.push("P17");
            }
            self.fail(t, lab, m);
            return false;
        }
        // --- reply packets
        let pr: Result<(), (bool, String)> = match &step.pk {
            XP::Any => Ok(()),
            XP::Fn(f) => f(&evs, &pk).map_err(|e| (false, e)),
            XP::Exact(x) => {
                if is_errst {
                    Ok(())
                } else if x.len() != pk.len() {
                    Err((
                        true,
                        format!(
                            "expected {} reply packet(s), got {}: {:?}",
                            x.len(),
                            pk.len(),
                            pk.iter().map(|p| show(p)).collect::<Vec<_>>()
                        ),
                    ))
                } else {
                    match x.iter().zip(pk.iter()).find(|(a, b)| a != b && !same_stop(a, b)) {
                        None => Ok(()),
                        Some((a, b)) => Err((false, format!("expected reply [{}], got [{}]", show(a), show(b)))),
                    }
                }
            }
        };
        if let Err((count, m)) = pr {
            let mut t = with(if count { &["P01"] } else { &[] });
            if pk.len() == 1 {
                // error code appended to data
                let b = &pk[0];
                if b.len() > 3 && is_err(&b[b.len() - 3..]) {
                    t.push("P01");
                }
            }
            self.fail(t, lab, m);
            return false;
        }
        self.last_evs = evs;
        self.last_pk = pk;
        if ended && !matches!(st, St::Disc(_)) {
            self.dead = true;
            return false;
        }
        true
    }
}
