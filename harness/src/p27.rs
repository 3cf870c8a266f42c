//! P27: `run_blocking` against the state machine driven by hand.
use crate::conn::*;
use crate::drive::*;
use crate::engine::*;
use crate::session::*;
use crate::stream;
use crate::target::*;
use crate::util::*;
use gdbstub::conn::ConnectionExt;
use gdbstub::stub::run_blocking::{BlockingEventLoop, Event, WaitForStopReasonError};
use gdbstub::stub::{GdbStub, GdbStubError, IntoStopReason, MultiThreadStopReason, SingleThreadStopReason};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum W {
    Data,
    Stop(Stop),
    TErr(u32),
    CErr(u32),
}
#[derive(Clone, Debug)]
pub enum I {
    No,
    Stop(Stop),
    TErr(u32),
}
#[derive(Clone, Default, Debug)]
pub struct Script {
    pub waits: VecDeque<W>,
    pub ints: VecDeque<I>,
}
impl Script {
    fn wait(&mut self) -> W {
        // the end of the world: an error nobody can miss
        self.waits.pop_front().unwrap_or(W::CErr(EOF_CODE + 1))
    }
    fn int(&mut self) -> I {
        self.ints.pop_front().unwrap_or(I::No)
    }
}

type Clog = Rc<RefCell<CLog>>;
thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
    static CL: RefCell<Option<Clog>> = const { RefCell::new(None) };
}
fn mark(b: u8) {
    CL.with(|c| {
        if let Some(c) = &*c.borrow() {
            c.borrow_mut().trace.push(b)
        }
    })
}

/// connections the event loop can be run over
pub trait LoopConn: ConnectionExt {
    fn mk(code: u32) -> Self::Error;
    /// the next byte, obtained the way event loops do
    fn wait_read(&mut self) -> Result<u8, Self::Error> {
        self.read()
    }
}
impl LoopConn for Conn {
    fn mk(code: u32) -> CErr {
        CErr(code)
    }
}

pub trait MkStop: Sized {
    fn mk(s: &Stop) -> Self;
}
impl<U: HU> MkStop for SingleThreadStopReason<U> {
    fn mk(s: &Stop) -> Self {
        s.single()
    }
}
impl<U: HU> MkStop for MultiThreadStopReason<U> {
    fn mk(s: &Stop) -> Self {
        s.multi()
    }
}

pub struct Loop<U, R, C>(PhantomData<(U, R, C)>);
impl<U: HU, R: MkStop + IntoStopReason<Mock<U>>, C: LoopConn> BlockingEventLoop for Loop<U, R, C> {
    type Target = Mock<U>;
    type Connection = C;
    type StopReason = R;
    fn wait_for_stop_reason(_t: &mut Mock<U>, conn: &mut C) -> Result<Event<R>, WaitForStopReasonError<TErr, C::Error>> {
        mark(b'W');
        match SCRIPT.with(|s| s.borrow_mut().wait()) {
            W::Data => match conn.wait_read() {
                Ok(b) => Ok(Event::IncomingData(b)),
                Err(e) => Err(WaitForStopReasonError::Connection(e)),
            },
            W::Stop(s) => Ok(Event::TargetStopped(R::mk(&s))),
            W::TErr(c) => Err(WaitForStopReasonError::Target(TErr(c))),
            W::CErr(c) => Err(WaitForStopReasonError::Connection(C::mk(c))),
        }
    }
    fn on_interrupt(_t: &mut Mock<U>) -> Result<Option<R>, TErr> {
        mark(b'I');
        match SCRIPT.with(|s| s.borrow_mut().int()) {
            I::No => Ok(None),
            I::Stop(s) => Ok(Some(R::mk(&s))),
            I::TErr(c) => Err(TErr(c)),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Ok(Why),
    Err(EK, Option<String>),
    Panic(String),
}
fn end_err(e: GdbStubError<TErr, CErr>) -> End {
    match guard(|| err_info(e)) {
        Ok(i) => End::Err(i.kind, i.bad),
        Err(p) => End::Panic(p),
    }
}

#[derive(Debug, PartialEq, Eq)]
pub struct Seen {
    pub end: End,
    pub out: Vec<u8>,
    flushes: Vec<usize>,
    trace: Vec<u8>,
    pub evs: Vec<Ev>,
    starts: usize,
    unread: usize,
    waits_left: usize,
    ints_left: usize,
}

pub struct Case {
    pub plan: Plan,
    pub input: Vec<u8>,
    pub script: Script,
    pub single: bool,
    pub fail_at: Option<(usize, u32)>,
    pub fail_read_at: Option<(usize, u32)>,
    pub fail_start: Option<u32>,
}

pub fn gen(seed: u64, hb: &dyn Fn()) -> Case {
    let mut r = Rng::new(mix(seed, 0x27));
    let mut plan = gen_plan("P27", seed);
    plan.wrap = Wrap::Plain;
    plan.steps = r.range(3, 14);
    let single = !plan.cfg.has(F::MULTI) && r.chance(3, 4);
    let mut input = vec![];
    if r.chance(1, 2) {
        // packets of a model-driven session
        plan.record = true;
        for (i, f) in FAMS.iter().enumerate() {
            if matches!(f.name, "resume" | "ctrlc_idle" | "no_ack" | "select_thread") {
                plan.weights[i] += 25;
            }
        }
        let o = run_plan(&plan, hb);
        for rec in &o.recs {
            input.extend_from_slice(&rec.input);
            if r.chance(1, 6) {
                input.push(3);
            }
        }
        if r.chance(1, 4) {
            input.extend(stream::piece(&mut r, false));
        }
    } else {
        let clean = r.chance(3, 4);
        for _ in 0..r.range(1, 14) {
            if r.chance(1, 2) {
                let t = *r.pick(&["c", "s", "vCont;c", "vCont;s:1;c", "bc", "bs", "D", "k", "?", "QStartNoAckMode", "g", "qSupported:multiprocess+", "!"]);
                input.extend(crate::wire::frame(t.as_bytes()));
            } else {
                input.extend(stream::piece(&mut r, clean));
            }
        }
    }
    let mut s = Script::default();
    let data = *r.pick(&[1, 3, 8]);
    for _ in 0..r.range(2, 60) {
        s.waits.push_back(if r.chance(data, data + 2) {
            W::Data
        } else {
            match r.below(40) {
                0 => W::TErr(r.next() as u32),
                1 => W::CErr(r.next() as u32),
                _ => W::Stop(stop(&mut r, single)),
            }
        });
    }
    for _ in 0..6 {
        s.ints.push_back(match r.below(20) {
            0 => I::TErr(r.next() as u32),
            1..=8 => I::No,
            _ => I::Stop(stop(&mut r, single)),
        });
    }
    let f = |r: &mut Rng, n: usize| if r.chance(1, 12) { Some((r.below(n), r.next() as u32)) } else { None };
    let fail_at = f(&mut r, 200);
    let fail_read_at = f(&mut r, input.len() + 1);
    let fail_start = if r.chance(1, 40) { Some(r.next() as u32) } else { None };
    Case { plan, input, script: s, single, fail_at, fail_read_at, fail_start }
}

fn stop(r: &mut Rng, single: bool) -> Stop {
    let mut s = stream::stop(r);
    s.single = single;
    if matches!(s.sr, SR::Exited(_) | SR::Terminated(_)) && r.chance(2, 3) {
        s.sr = SR::Signal(5);
    }
    s
}

fn reference(sess: &mut dyn Sess, c: &Clog) -> End {
    let mut conn = Conn(c.clone());
    loop {
        match sess.st().clone() {
            St::Idle => match conn.read() {
                Ok(b) => sess.feed(b),
                Err(e) => return End::Err(EK::Conn(e.0, 'r'), None),
            },
            St::Running => {
                mark(b'W');
                match SCRIPT.with(|s| s.borrow_mut().wait()) {
                    W::Data => match conn.read() {
                        Ok(b) => sess.feed(b),
                        Err(e) => return End::Err(EK::Conn(e.0, 'r'), None),
                    },
                    W::Stop(s) => sess.stop(&s),
                    W::TErr(c) => return End::Err(EK::Target(c), None),
                    W::CErr(c) => return End::Err(EK::Conn(c, 'r'), None),
                }
            }
            St::CtrlC => {
                mark(b'I');
                match SCRIPT.with(|s| s.borrow_mut().int()) {
                    I::No => sess.int_handled(None),
                    I::Stop(s) => sess.int_handled(Some(&s)),
                    I::TErr(c) => return End::Err(EK::Target(c), None),
                }
            }
            St::Disc(w) => return End::Ok(w),
            St::Err(e) => return End::Err(e.kind, e.bad),
            St::Panic(p) => return End::Panic(p),
        }
    }
}

pub fn world(k: &Case) -> Shared {
    let mut r = Rng::new(mix(k.plan.seed, 0x5e55));
    let w = setup_world(&k.plan, &mut r);
    {
        let mut w = w.borrow_mut();
        // or else a request of 2^60 bytes is served
        w.mem.hole = Some((0x2000, u64::MAX));
        if k.plan.cfg.has(F::MULTI) {
            w.threads = vec![1, 2, 3];
        }
        if k.plan.fault > 0 {
            // some target operations fail
            for op in ["read_regs", "write_regs", "mt_resume", "mt_cont", "mt_clear", "mt_step", "st_resume", "st_step", "list_threads", "rev_cont", "rev_step"] {
                if r.chance(1, 6) {
                    let n = r.below(3);
                    let f = FailKind::Fatal(r.next() as u32);
                    w.fails.push((op, n, f));
                }
            }
        }
    }
    w
}

pub fn set_script(s: &Script) {
    SCRIPT.with(|x| *x.borrow_mut() = s.clone());
    CL.with(|x| *x.borrow_mut() = None);
}

pub fn one<U: HU>(k: &Case, blocking: bool) -> Seen {
    let w = world(k);
    let conn = Conn::new();
    let c = conn.0.clone();
    {
        let mut l = c.borrow_mut();
        l.record_trace = true;
        l.fail_at = k.fail_at;
        l.fail_read_at = k.fail_read_at;
        l.fail_start = k.fail_start;
        l.input = k.input.iter().copied().collect();
    }
    SCRIPT.with(|s| *s.borrow_mut() = k.script.clone());
    CL.with(|x| *x.borrow_mut() = Some(c.clone()));
    let end = if blocking {
        let b = k.plan.buf;
        let mut store: Vec<u8> = if b.owned { vec![] } else { vec![b.fill; b.len] };
        let mut bl = GdbStub::builder(Conn(c.clone()));
        if b.owned {
            bl = bl.packet_buffer_size(b.len)
        } else {
            bl = bl.with_packet_buffer(&mut store)
        }
        match bl.build() {
            Err(e) => End::Panic(format!("builder: {}", e)),
            Ok(stub) => {
                let mut mock = Mock::<U>::new(w.clone());
                let r = guard(|| {
                    if k.single {
                        stub.run_blocking::<Loop<U, SingleThreadStopReason<U>, Conn>>(&mut mock)
                    } else {
                        stub.run_blocking::<Loop<U, MultiThreadStopReason<U>, Conn>>(&mut mock)
                    }
                });
                match r {
                    Err(p) => End::Panic(p),
                    Ok(Ok(d)) => End::Ok(d.into()),
                    Ok(Err(e)) => end_err(e),
                }
            }
        }
    } else {
        let mut b = k.plan.buf;
        b.explicit = false;
        with_session::<U, End>(w.clone(), c.clone(), b, Wrap::Plain, &mut |s| reference(s, &c))
    };
    CL.with(|x| *x.borrow_mut() = None);
    ARCH_LLDB.with(|x| *x.borrow_mut() = None);
    let l = c.borrow();
    let s = SCRIPT.with(|s| s.borrow().clone());
    let evs = w.borrow().log.clone();
    Seen {
        end,
        out: l.out.clone(),
        flushes: l.flushes.clone(),
        trace: l.trace.clone(),
        evs,
        starts: l.starts,
        unread: l.input.len(),
        waits_left: s.waits.len(),
        ints_left: s.ints.len(),
    }
}

pub fn blocking(_: &'static str, seed: u64, hb: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let k = gen(seed, hb);
    hb();
    let run = |b: bool| match k.plan.bits {
        16 => one::<u16>(&k, b),
        32 => one::<u32>(&k, b),
        _ => one::<u64>(&k, b),
    };
    let (a, b) = (run(true), run(false));
    let mut st = Stats::default();
    st.sessions = 2;
    st.bytes_in = k.input.len() as u64;
    st.bytes_out = a.out.len() as u64;
    st.target_calls = a.evs.len() as u64;
    let n = |c: u8| a.trace.iter().filter(|x| **x == c).count() as u64;
    for (name, c) in [("reads", b'r'), ("waits", b'W'), ("interrupts_handled", b'I'), ("writes", b'w'), ("flushes", b'f')] {
        st.note(name, n(c));
    }
    *st.ends
        .entry(match &a.end {
            End::Ok(w) => format!("{:?}", w).split('(').next().unwrap().to_string(),
            End::Err(EK::Target(_), _) => "TargetError".into(),
            End::Err(EK::Conn(_, k), _) => format!("ConnError({})", k),
            End::Err(EK::Other, _) => "ProtocolError".into(),
            End::Panic(_) => "Panic".into(),
        })
        .or_default() += 1;
    st.cfgs.insert(k.plan.cfg.0);
    if n(b'W') > 0 || n(b'I') > 0 {
        st.distinct.insert(fnv(fnv(1, &a.trace), &a.out));
    }
    let mut fails = vec![];
    if let End::Panic(m) = &a.end {
        if !m.contains("runaway") {
            fails.push(Fail { tags: vec!["P03"], label: "blocking", msg: format!("panic: {} input {}", m, show(&k.input)) });
        } else {
            st.note("unbounded_requests", 1);
        }
    }
    let mut bad = |m: String| fails.push(Fail { tags: vec!["P27"], label: "blocking", msg: m });
    let ctx = || format!("\n input {}\n script {:?}\n faults {:?} {:?} {:?}", show(&k.input), k.script, k.fail_at, k.fail_read_at, k.fail_start);
    if a.end != b.end {
        bad(format!("run_blocking ended with {:?}, the hand-driven session with {:?}{}", a.end, b.end, ctx()));
    } else if a.out != b.out {
        bad(format!("run_blocking sent [{}], the hand-driven session [{}]{}", show(&a.out), show(&b.out), ctx()));
    } else if a.evs != b.evs {
        bad(format!("target calls {:?} against {:?}{}", a.evs, b.evs, ctx()));
    } else if a.flushes != b.flushes {
        bad(format!("flushes at {:?} against {:?}{}", a.flushes, b.flushes, ctx()));
    } else if a.trace != b.trace {
        bad(format!("order of reads, waits, interrupts, writes: {} against {}{}", show(&a.trace), show(&b.trace), ctx()));
    } else if a != b {
        bad(format!("starts {} unread {} waits {} ints {} against starts {} unread {} waits {} ints {}{}", a.starts, a.unread, a.waits_left, a.ints_left, b.starts, b.unread, b.waits_left, b.ints_left, ctx()));
    }
    (fails, st)
}
