//! P33: a stock GDB as the client, over a socket, against a small simulated
//! machine. Every command of the generated script is also carried out on a
//! shadow machine directly; what GDB prints and what the machine looks like in
//! the end must agree with it.
use crate::engine::{Fail, Stats};
use crate::util::*;
use gdbstub::common::{Pid, Signal, Tid};
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::stub::run_blocking::{BlockingEventLoop, Event, WaitForStopReasonError};
use gdbstub::stub::{BaseStopReason, DisconnectReason, GdbStub, MultiThreadStopReason};
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::reverse_exec::*;
use gdbstub::target::ext::base::single_register_access::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::breakpoints::*;
use gdbstub::target::ext::catch_syscalls::*;
use gdbstub::target::ext::extended_mode::*;
use gdbstub::target::ext::host_io::*;
use gdbstub::target::ext::monitor_cmd::*;
use gdbstub::target::ext::tracepoints::*;
use gdbstub::target::*;
use gdbstub_arch::x86::reg::id::X86_64CoreRegId as Id;
use gdbstub_arch::x86::reg::id::{X86SegmentRegId, X87FpuInternalRegId};
use gdbstub_arch::x86::reg::{X86SegmentRegs, X86_64CoreRegs, X87FpuInternalRegs};
use gdbstub_arch::x86::X86_64_SSE;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::net::TcpListener;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const CODE: u64 = 0x40_0000;
const CODE_LEN: u64 = 0x400;
const DATA: u64 = 0x60_0000;
/// [0, FREE) belongs to the user, then the areas of events: written to, read only
const FREE: u64 = 0x1000;
const WAREA: u64 = 0x400;
const DATA_LEN: u64 = FREE + 2 * WAREA;
const STACK: u64 = 0x7fff_0000;
const STACK_LEN: u64 = 0x1000;

#[derive(Clone, Debug, PartialEq)]
enum Act {
    Sig(u8),
    Write(u64, Vec<u8>),
    Read(u64),
    Sys(u64),
    Exit(u8),
    Term(u8),
    Spin,
}

type Sr = MultiThreadStopReason<u64>;

#[derive(Clone, Debug, PartialEq, Default)]
struct Thr {
    tid: usize,
    regs: X86_64CoreRegs,
    /// a system call was entered and not left
    insys: bool,
}

#[derive(Clone, Debug, Default)]
struct Feat {
    multi: bool,
    sreg: bool,
    ext: bool,
    xup: bool,
    memmap: bool,
    rle: bool,
    noack: bool,
    hw: bool,
    extra: bool,
    step_done: bool,
    /// killing does not end the session
    keep: bool,
    trace: bool,
    tsrc: bool,
    rev: bool,
}

/// a tracepoint: the registers (by GDB's number; 16 and up stands for all) and
/// the memory it collects
#[derive(Clone, Debug, PartialEq, Default)]
struct Tp {
    n: usize,
    addr: u64,
    on: bool,
    pass: u64,
    regs: BTreeSet<usize>,
    mem: Vec<(u64, u64)>,
    src: Vec<(char, String)>,
    done: bool,
    hits: u64,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct Frame {
    tp: usize,
    regs: X86_64CoreRegs,
    mem: Vec<(u64, Vec<u8>)>,
}
#[derive(Clone, Debug, PartialEq, Default)]
enum Tr {
    #[default]
    Never,
    On,
    Off,
    Pass(usize),
}
#[derive(Clone, Copy, Debug)]
enum Find {
    Nth(u64),
    Pc(u64),
    Tp(usize),
    In(u64, u64),
    Out(u64, u64),
}

#[derive(Clone, Debug, Default)]
struct Mach {
    f: Feat,
    thr: Vec<Thr>,
    data: Vec<u8>,
    stack: Vec<u8>,
    prog: BTreeMap<u64, Act>,
    sw: BTreeSet<u64>,
    hw: BTreeSet<u64>,
    watch: Vec<(u64, u64, u8)>,
    catch: Option<Option<BTreeSet<u64>>>,
    sigs: Vec<(usize, u8)>,
    mon: Vec<Vec<u8>>,
    mon_out: Vec<u8>,
    files: BTreeMap<Vec<u8>, Vec<u8>>,
    fds: BTreeMap<u32, Vec<u8>>,
    auxv: Vec<u8>,
    exts: Vec<String>,
    pid: usize,
    tps: Vec<Tp>,
    frames: Vec<Frame>,
    sel: Option<usize>,
    tr: Tr,
    circ: bool,
    tsize: Option<u64>,
    traw: Vec<u8>,
    tnote: Vec<u8>,
    /// what was executed: thread, its state before, the memory it changed
    undo: Vec<(usize, u64, bool, Vec<(u64, u8)>)>,
}

/// why a machine stopped, in its own terms
#[derive(Clone, Debug, PartialEq)]
enum Why {
    Step,
    Sw,
    Hw,
    Sig(u8),
    Watch(u8, u64),
    Sys(u64, bool),
    Exit(u8),
    Term(u8),
    Spin,
    /// nothing left to be undone
    Begin,
}

impl Mach {
    fn mem(&mut self, a: u64) -> Option<&mut u8> {
        if (DATA..DATA + DATA_LEN).contains(&a) {
            Some(&mut self.data[(a - DATA) as usize])
        } else if (STACK..STACK + STACK_LEN).contains(&a) {
            Some(&mut self.stack[(a - STACK) as usize])
        } else {
            None
        }
    }
    fn byte(&mut self, a: u64) -> Option<u8> {
        if (CODE..CODE + CODE_LEN).contains(&a) {
            return Some(0x90);
        }
        self.mem(a).map(|b| *b)
    }
    /// a new program: every thread at its start
    fn fresh(&mut self) {
        for (k, t) in self.thr.iter_mut().enumerate() {
            t.regs.rip = CODE + 0x80 * k as u64;
            t.insys = false;
        }
        self.sw.clear();
        self.hw.clear();
        self.undo.clear();
    }
    fn idx(&self, tid: usize) -> usize {
        self.thr.iter().position(|t| t.tid == tid).unwrap_or(0)
    }
    /// one instruction of thread `i`
    fn exec(&mut self, i: usize) -> Option<Why> {
        let pc = self.thr[i].regs.rip;
        if !(CODE..CODE + CODE_LEN).contains(&pc) {
            return Some(Why::Sig(11));
        }
        self.record(i, pc);
        let mut old = vec![];
        if let Some(Act::Write(a, v)) = self.prog.get(&pc).cloned() {
            old = (a..a + v.len() as u64).filter_map(|a| self.byte(a).map(|b| (a, b))).collect();
        }
        if self.f.rev && self.prog.get(&pc) != Some(&Act::Spin) {
            self.undo.push((i, pc, self.thr[i].insys, old));
        }
        let act = self.prog.get(&pc).cloned();
        if let Some(Act::Spin) = act {
            return Some(Why::Spin);
        }
        if let Some(Act::Sys(n)) = act {
            let on = match &self.catch {
                None => false,
                Some(None) => true,
                Some(Some(l)) => l.contains(&n),
            };
            let t = &mut self.thr[i];
            if t.insys || !on {
                t.regs.rip += 1;
                let was = std::mem::take(&mut t.insys);
                return if was && on { Some(Why::Sys(n, false)) } else { None };
            }
            t.insys = true;
            return Some(Why::Sys(n, true));
        }
        self.thr[i].regs.rip += 1;
        match act? {
            Act::Sig(n) => Some(Why::Sig(n)),
            Act::Write(a, v) => {
                for (k, b) in v.iter().enumerate() {
                    *self.mem(a + k as u64).unwrap() = *b;
                }
                let e = a + v.len() as u64;
                self.watch.iter().find(|w| w.2 != 3 && w.0 < e && a < w.0 + w.1).map(|w| Why::Watch(w.2, w.0))
            }
            Act::Read(a) => self.watch.iter().find(|w| w.2 != 2 && w.0 <= a && a < w.0 + w.1).map(|w| Why::Watch(w.2, w.0)),
            Act::Exit(c) => Some(Why::Exit(c)),
            Act::Term(c) => Some(Why::Term(c)),
            Act::Sys(_) | Act::Spin => None,
        }
    }
    /// thread `i` backwards
    fn back(&mut self, i: usize, step: bool) -> Why {
        loop {
            let Some(k) = self.undo.iter().rposition(|u| u.0 == i) else { return Why::Begin };
            let (_, pc, insys, old) = self.undo.remove(k);
            self.thr[i].regs.rip = pc;
            self.thr[i].insys = insys;
            for (a, b) in old {
                *self.mem(a).unwrap() = b;
            }
            if step {
                return Why::Step;
            }
            if self.sw.contains(&pc) {
                return Why::Sw;
            }
            if self.hw.contains(&pc) {
                return Why::Hw;
            }
        }
    }
    fn record(&mut self, i: usize, pc: u64) {
        for k in 0..self.tps.len() {
            let t = self.tps[k].clone();
            if self.tr != Tr::On || t.addr != pc || !t.on {
                continue;
            }
            self.tps[k].hits += 1;
            let mut mem = vec![];
            for (a, n) in &t.mem {
                mem.push((*a, (*a..*a + *n).map(|a| self.byte(a).unwrap_or(0)).collect()));
            }
            let r = &self.thr[i].regs;
            let mut regs = X86_64CoreRegs { rip: pc, ..Default::default() };
            if t.regs.contains(&16) {
                regs = r.clone();
            }
            for n in &t.regs {
                if *n < 16 {
                    regs.regs[*n] = r.regs[*n];
                }
            }
            self.frames.push(Frame { tp: t.n, regs, mem });
            if t.pass != 0 && self.tps[k].hits >= t.pass {
                self.tr = Tr::Pass(t.n);
            }
        }
    }
    fn find(&self, q: Find) -> Option<usize> {
        let from = self.sel.map_or(0, |s| s + 1);
        let hit = |f: &Frame| match q {
            Find::Nth(_) => false,
            Find::Pc(a) => f.regs.rip == a,
            Find::Tp(n) => f.tp == n,
            Find::In(a, b) => (a..=b).contains(&f.regs.rip),
            Find::Out(a, b) => !(a..=b).contains(&f.regs.rip),
        };
        if let Find::Nth(n) = q {
            return if n < self.frames.len() as u64 { Some(n as usize) } else { None };
        }
        (from..self.frames.len()).find(|k| hit(&self.frames[*k]))
    }
    /// what is to be seen of thread `i`: itself, or the selected trace frame
    fn view(&self, i: usize) -> X86_64CoreRegs {
        match self.sel {
            Some(k) => self.frames[k].regs.clone(),
            None => self.thr[i].regs.clone(),
        }
    }
    fn seen(&mut self, a: u64) -> Option<u8> {
        let Some(k) = self.sel else { return self.byte(a) };
        if (CODE..CODE + CODE_LEN).contains(&a) {
            return Some(0x90);
        }
        self.frames[k].mem.iter().find(|m| m.0 <= a && a - m.0 < m.1.len() as u64).map(|m| m.1[(a - m.0) as usize])
    }
    /// run thread `i` as hardware would
    fn run(&mut self, i: usize, step: bool) -> Why {
        loop {
            let pc = self.thr[i].regs.rip;
            if self.sw.contains(&pc) {
                return Why::Sw;
            }
            if self.hw.contains(&pc) {
                return Why::Hw;
            }
            if let Some(w) = self.exec(i) {
                return w;
            }
            if step {
                return Why::Step;
            }
        }
    }
}

// ------------------------------------------------------------------ target

#[derive(Debug)]
struct Oops(String);
impl std::fmt::Display for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

struct T {
    m: Mach,
    te: TracepointEnumerateState<u64>,
    acts: Vec<(usize, bool, Option<Signal>)>,
    cur: usize,
    stop: Option<Sr>,
    spin: bool,
    gdb: u32,
    calls: u64,
}
type R<X> = TargetResult<X, T>;

impl T {
    fn go(&mut self, tid: usize, step: bool, sig: Option<Signal>) {
        let i = self.m.idx(tid);
        self.cur = i;
        let tid = self.m.thr[i].tid;
        if let Some(s) = sig {
            self.m.sigs.push((tid, s.0));
        }
        let why = self.m.run(i, step);
        self.stop = self.reason(tid, why);
        self.spin = self.stop.is_none();
    }
    fn reason(&mut self, tid: usize, why: Why) -> Option<Sr> {
        let t = Tid::new(tid).unwrap();
        Some(match why {
            Why::Step if self.m.f.step_done && !self.m.f.multi => BaseStopReason::DoneStep,
            Why::Step => BaseStopReason::SignalWithThread { tid: t, signal: Signal::SIGTRAP },
            Why::Sw => BaseStopReason::SwBreak(t),
            Why::Hw => BaseStopReason::HwBreak(t),
            Why::Sig(n) => BaseStopReason::SignalWithThread { tid: t, signal: crate::signals::named(n) },
            Why::Watch(k, a) => BaseStopReason::Watch {
                tid: t,
                kind: match k {
                    2 => WatchKind::Write,
                    3 => WatchKind::Read,
                    _ => WatchKind::ReadWrite,
                },
                addr: a,
            },
            Why::Sys(n, e) => BaseStopReason::CatchSyscall {
                tid: Some(t),
                number: n,
                position: if e { CatchSyscallPosition::Entry } else { CatchSyscallPosition::Return },
            },
            Why::Exit(c) => BaseStopReason::Exited(c),
            Why::Term(s) => BaseStopReason::Terminated(crate::signals::named(s)),
            Why::Spin => return None,
            Why::Begin => BaseStopReason::ReplayLog { tid: Some(t), pos: ReplayLogPosition::Begin },
        })
    }
    fn read(&mut self, a: u64, out: &mut [u8]) -> R<usize> {
        self.calls += 1;
        for (k, o) in out.iter_mut().enumerate() {
            match self.m.seen(a.wrapping_add(k as u64)) {
                Some(b) => *o = b,
                None if k == 0 => return Err(TargetError::Errno(14)),
                None => return Ok(k),
            }
        }
        Ok(out.len())
    }
    fn write(&mut self, a: u64, d: &[u8]) -> R<()> {
        self.calls += 1;
        for k in 0..d.len() as u64 {
            if self.m.mem(a.wrapping_add(k)).is_none() {
                return Err(TargetError::Errno(14));
            }
        }
        for (k, b) in d.iter().enumerate() {
            *self.m.mem(a + k as u64).unwrap() = *b;
        }
        Ok(())
    }
    fn rreg(&mut self, tid: usize, id: Id, buf: &mut [u8]) -> R<usize> {
        let i = self.m.idx(tid);
        let r = &self.m.view(i);
        let v: Vec<u8> = match id {
            Id::Gpr(n) => r.regs[n as usize].to_le_bytes().to_vec(),
            Id::Rip => r.rip.to_le_bytes().to_vec(),
            Id::Eflags => r.eflags.to_le_bytes().to_vec(),
            Id::Mxcsr => r.mxcsr.to_le_bytes().to_vec(),
            Id::Xmm(n) => r.xmm[n as usize].to_le_bytes().to_vec(),
            Id::St(n) => r.st[n as usize].to_vec(),
            Id::Segment(s) => seg(&mut r.segments.clone(), s).to_le_bytes().to_vec(),
            Id::Fpu(f) => fpu(&mut r.fpu.clone(), f).to_le_bytes().to_vec(),
            _ => return Err(TargetError::NonFatal),
        };
        buf[..v.len()].copy_from_slice(&v);
        Ok(v.len())
    }
    fn wreg(&mut self, tid: usize, id: Id, v: &[u8]) -> R<()> {
        let i = self.m.idx(tid);
        let r = &mut self.m.thr[i].regs;
        fn n<const N: usize>(v: &[u8]) -> R<[u8; N]> {
            v.try_into().map_err(|_| TargetError::NonFatal)
        }
        match id {
            Id::Gpr(k) => r.regs[k as usize] = u64::from_le_bytes(n(v)?),
            Id::Rip => r.rip = u64::from_le_bytes(n(v)?),
            Id::Eflags => r.eflags = u32::from_le_bytes(n(v)?),
            Id::Mxcsr => r.mxcsr = u32::from_le_bytes(n(v)?),
            Id::Xmm(k) => r.xmm[k as usize] = u128::from_le_bytes(n(v)?),
            Id::St(k) => r.st[k as usize] = n(v)?,
            Id::Segment(s) => *seg(&mut r.segments, s) = u32::from_le_bytes(n(v)?),
            Id::Fpu(f) => *fpu(&mut r.fpu, f) = u32::from_le_bytes(n(v)?),
            _ => return Err(TargetError::NonFatal),
        }
        Ok(())
    }
}

fn seg(r: &mut X86SegmentRegs, s: X86SegmentRegId) -> &mut u32 {
    use X86SegmentRegId::*;
    match s {
        CS => &mut r.cs,
        SS => &mut r.ss,
        DS => &mut r.ds,
        ES => &mut r.es,
        FS => &mut r.fs,
        GS => &mut r.gs,
    }
}
fn fpu(r: &mut X87FpuInternalRegs, f: X87FpuInternalRegId) -> &mut u32 {
    use X87FpuInternalRegId::*;
    match f {
        Fctrl => &mut r.fctrl,
        Fstat => &mut r.fstat,
        Ftag => &mut r.ftag,
        Fiseg => &mut r.fiseg,
        Fioff => &mut r.fioff,
        Foseg => &mut r.foseg,
        Fooff => &mut r.fooff,
        Fop => &mut r.fop,
    }
}

macro_rules! when {
    ($s:ident, $c:expr) => {
        if $c {
            Some($s)
        } else {
            None
        }
    };
}

impl Target for T {
    type Arch = X86_64_SSE;
    type Error = Oops;
    fn base_ops(&mut self) -> BaseOps<'_, X86_64_SSE, Oops> {
        if self.m.f.multi {
            BaseOps::MultiThread(self)
        } else {
            BaseOps::SingleThread(self)
        }
    }
    fn use_rle(&self) -> bool {
        self.m.f.rle
    }
    fn use_no_ack_mode(&self) -> bool {
        self.m.f.noack
    }
    fn use_x_upcase_packet(&self) -> bool {
        self.m.f.xup
    }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> {
        Some(self)
    }
    fn support_monitor_cmd(&mut self) -> Option<MonitorCmdOps<'_, Self>> {
        Some(self)
    }
    fn support_catch_syscalls(&mut self) -> Option<CatchSyscallsOps<'_, Self>> {
        Some(self)
    }
    fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> {
        Some(self)
    }
    fn support_memory_map(&mut self) -> Option<ext::memory_map::MemoryMapOps<'_, Self>> {
        when!(self, self.m.f.memmap)
    }
    fn support_tracepoints(&mut self) -> Option<TracepointsOps<'_, Self>> {
        when!(self, self.m.f.trace)
    }
    fn support_auxv(&mut self) -> Option<ext::auxv::AuxvOps<'_, Self>> {
        Some(self)
    }
    fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> {
        when!(self, self.m.f.ext)
    }
}

impl SingleThreadBase for T {
    fn read_registers(&mut self, r: &mut X86_64CoreRegs) -> R<()> {
        *r = self.m.view(0);
        Ok(())
    }
    fn write_registers(&mut self, r: &X86_64CoreRegs) -> R<()> {
        self.m.thr[0].regs = r.clone();
        Ok(())
    }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, (), Self>> {
        when!(self, self.m.f.sreg)
    }
    fn read_addrs(&mut self, a: u64, d: &mut [u8]) -> R<usize> {
        self.read(a, d)
    }
    fn write_addrs(&mut self, a: u64, d: &[u8]) -> R<()> {
        self.write(a, d)
    }
    fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> {
        Some(self)
    }
}
impl SingleThreadResume for T {
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, (), Self>> {
        when!(self, self.m.f.rev)
    }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, (), Self>> {
        when!(self, self.m.f.rev)
    }
    fn resume(&mut self, s: Option<Signal>) -> Result<(), Oops> {
        self.go(1, false, s);
        Ok(())
    }
    fn support_single_step(&mut self) -> Option<SingleThreadSingleStepOps<'_, Self>> {
        Some(self)
    }
}
impl SingleThreadSingleStep for T {
    fn step(&mut self, s: Option<Signal>) -> Result<(), Oops> {
        self.go(1, true, s);
        Ok(())
    }
}
impl SingleRegisterAccess<()> for T {
    fn read_register(&mut self, _: (), id: Id, buf: &mut [u8]) -> R<usize> {
        self.rreg(1, id, buf)
    }
    fn write_register(&mut self, _: (), id: Id, v: &[u8]) -> R<()> {
        self.wreg(1, id, v)
    }
}
impl SingleRegisterAccess<Tid> for T {
    fn read_register(&mut self, t: Tid, id: Id, buf: &mut [u8]) -> R<usize> {
        self.rreg(t.get(), id, buf)
    }
    fn write_register(&mut self, t: Tid, id: Id, v: &[u8]) -> R<()> {
        self.wreg(t.get(), id, v)
    }
}
impl MultiThreadBase for T {
    fn read_registers(&mut self, r: &mut X86_64CoreRegs, t: Tid) -> R<()> {
        let i = self.m.idx(t.get());
        *r = self.m.view(i);
        Ok(())
    }
    fn write_registers(&mut self, r: &X86_64CoreRegs, t: Tid) -> R<()> {
        let i = self.m.idx(t.get());
        self.m.thr[i].regs = r.clone();
        Ok(())
    }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, Tid, Self>> {
        when!(self, self.m.f.sreg)
    }
    fn read_addrs(&mut self, a: u64, d: &mut [u8], _: Tid) -> R<usize> {
        self.read(a, d)
    }
    fn write_addrs(&mut self, a: u64, d: &[u8], _: Tid) -> R<()> {
        self.write(a, d)
    }
    fn list_active_threads(&mut self, cb: &mut dyn FnMut(Tid)) -> Result<(), Oops> {
        for t in &self.m.thr {
            cb(Tid::new(t.tid).unwrap())
        }
        Ok(())
    }
    fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> {
        Some(self)
    }
    fn support_thread_extra_info(&mut self) -> Option<ext::thread_extra_info::ThreadExtraInfoOps<'_, Self>> {
        when!(self, self.m.f.extra)
    }
}
impl ext::thread_extra_info::ThreadExtraInfo for T {
    fn thread_extra_info(&self, t: Tid, buf: &mut [u8]) -> Result<usize, Oops> {
        let s = extra(t.get());
        buf[..s.len()].copy_from_slice(s.as_bytes());
        Ok(s.len())
    }
}
fn extra(tid: usize) -> String {
    format!("worker {} }}#$*, {}", tid, "x".repeat(tid % 17))
}
impl MultiThreadResume for T {
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, Tid, Self>> {
        when!(self, self.m.f.rev)
    }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, Tid, Self>> {
        when!(self, self.m.f.rev)
    }
    fn resume(&mut self) -> Result<(), Oops> {
        let a = std::mem::take(&mut self.acts);
        let p = a.iter().find(|x| x.1).or_else(|| a.first()).cloned();
        match p {
            Some((t, st, s)) => self.go(t, st, s),
            None => {
                let t = self.m.thr[self.cur].tid;
                self.go(t, false, None)
            }
        }
        Ok(())
    }
    fn clear_resume_actions(&mut self) -> Result<(), Oops> {
        self.acts.clear();
        Ok(())
    }
    fn set_resume_action_continue(&mut self, t: Tid, s: Option<Signal>) -> Result<(), Oops> {
        self.acts.push((t.get(), false, s));
        Ok(())
    }
    fn support_single_step(&mut self) -> Option<MultiThreadSingleStepOps<'_, Self>> {
        Some(self)
    }
}
impl MultiThreadSingleStep for T {
    fn set_resume_action_step(&mut self, t: Tid, s: Option<Signal>) -> Result<(), Oops> {
        self.acts.push((t.get(), true, s));
        Ok(())
    }
}
impl ReverseStep<()> for T {
    fn reverse_step(&mut self, _: ()) -> Result<(), Oops> {
        self.undo(1, true)
    }
}
impl ReverseStep<Tid> for T {
    fn reverse_step(&mut self, t: Tid) -> Result<(), Oops> {
        self.undo(t.get(), true)
    }
}
impl ReverseCont<()> for T {
    fn reverse_cont(&mut self) -> Result<(), Oops> {
        self.undo(1, false)
    }
}
impl ReverseCont<Tid> for T {
    fn reverse_cont(&mut self) -> Result<(), Oops> {
        let t = self.m.thr[self.cur].tid;
        self.undo(t, false)
    }
}
impl T {
    fn undo(&mut self, tid: usize, step: bool) -> Result<(), Oops> {
        self.calls += 1;
        let i = self.m.idx(tid);
        self.cur = i;
        let why = self.m.back(i, step);
        self.stop = self.reason(tid, why);
        Ok(())
    }
}
impl Breakpoints for T {
    fn support_sw_breakpoint(&mut self) -> Option<SwBreakpointOps<'_, Self>> {
        Some(self)
    }
    fn support_hw_breakpoint(&mut self) -> Option<HwBreakpointOps<'_, Self>> {
        when!(self, self.m.f.hw)
    }
    fn support_hw_watchpoint(&mut self) -> Option<HwWatchpointOps<'_, Self>> {
        Some(self)
    }
}
impl SwBreakpoint for T {
    fn add_sw_breakpoint(&mut self, a: u64, _: usize) -> R<bool> {
        Ok(self.m.sw.insert(a))
    }
    fn remove_sw_breakpoint(&mut self, a: u64, _: usize) -> R<bool> {
        Ok(self.m.sw.remove(&a))
    }
}
impl HwBreakpoint for T {
    fn add_hw_breakpoint(&mut self, a: u64, _: usize) -> R<bool> {
        Ok(self.m.hw.insert(a))
    }
    fn remove_hw_breakpoint(&mut self, a: u64, _: usize) -> R<bool> {
        Ok(self.m.hw.remove(&a))
    }
}
fn wk(k: WatchKind) -> u8 {
    match k {
        WatchKind::Write => 2,
        WatchKind::Read => 3,
        WatchKind::ReadWrite => 4,
    }
}
impl HwWatchpoint for T {
    fn add_hw_watchpoint(&mut self, a: u64, l: u64, k: WatchKind) -> R<bool> {
        self.m.watch.push((a, l, wk(k)));
        Ok(true)
    }
    fn remove_hw_watchpoint(&mut self, a: u64, l: u64, k: WatchKind) -> R<bool> {
        let p = self.m.watch.iter().position(|w| *w == (a, l, wk(k)));
        if let Some(p) = p {
            self.m.watch.remove(p);
        }
        Ok(p.is_some())
    }
}
impl MonitorCmd for T {
    fn handle_monitor_cmd(&mut self, cmd: &[u8], mut out: ConsoleOutput<'_>) -> Result<(), Oops> {
        self.m.mon.push(cmd.to_vec());
        let o = self.m.mon_out.clone();
        for c in o.chunks(37) {
            out.write_raw(c);
        }
        Ok(())
    }
}
impl CatchSyscalls for T {
    fn enable_catch_syscalls(&mut self, f: Option<SyscallNumbers<'_, u64>>) -> R<()> {
        self.m.catch = Some(f.map(|f| f.collect()));
        Ok(())
    }
    fn disable_catch_syscalls(&mut self) -> R<()> {
        self.m.catch = None;
        Ok(())
    }
}
impl ext::memory_map::MemoryMap for T {
    fn memory_map_xml(&self, off: u64, len: usize, buf: &mut [u8]) -> R<usize> {
        Ok(part(memmap().as_bytes(), off, len, buf))
    }
}
fn memmap() -> String {
    let mut s = String::from("<memory-map>");
    for (k, a, l) in [("ram", CODE, CODE_LEN), ("ram", DATA, DATA_LEN), ("ram", STACK, STACK_LEN)] {
        s.push_str(&format!("<memory type=\"{}\" start=\"{:#x}\" length=\"{:#x}\"/>", k, a, l));
    }
    s + "</memory-map>"
}
fn part(o: &[u8], off: u64, len: usize, buf: &mut [u8]) -> usize {
    let o = o.get(off as usize..).unwrap_or(&[]);
    let n = o.len().min(len).min(buf.len());
    buf[..n].copy_from_slice(&o[..n]);
    n
}
impl ext::auxv::Auxv for T {
    fn get_auxv(&self, off: u64, len: usize, buf: &mut [u8]) -> R<usize> {
        Ok(part(&self.m.auxv, off, len, buf))
    }
}
impl HostIo for T {
    fn support_open(&mut self) -> Option<HostIoOpenOps<'_, Self>> {
        Some(self)
    }
    fn support_close(&mut self) -> Option<HostIoCloseOps<'_, Self>> {
        Some(self)
    }
    fn support_pread(&mut self) -> Option<HostIoPreadOps<'_, Self>> {
        Some(self)
    }
    fn support_pwrite(&mut self) -> Option<HostIoPwriteOps<'_, Self>> {
        Some(self)
    }
    fn support_fstat(&mut self) -> Option<HostIoFstatOps<'_, Self>> {
        Some(self)
    }
    fn support_unlink(&mut self) -> Option<HostIoUnlinkOps<'_, Self>> {
        Some(self)
    }
    fn support_setfs(&mut self) -> Option<HostIoSetfsOps<'_, Self>> {
        Some(self)
    }
}
type H<X> = HostIoResult<X, T>;
impl HostIoOpen for T {
    fn open(&mut self, n: &[u8], fl: HostIoOpenFlags, _: HostIoOpenMode) -> H<u32> {
        if fl.contains(HostIoOpenFlags::O_CREAT) {
            self.m.files.entry(n.to_vec()).or_default();
        }
        if fl.contains(HostIoOpenFlags::O_TRUNC) {
            self.m.files.insert(n.to_vec(), vec![]);
        }
        if !self.m.files.contains_key(n) {
            return Err(HostIoError::Errno(HostIoErrno::ENOENT));
        }
        let fd = (3..).find(|f| !self.m.fds.contains_key(f)).unwrap();
        self.m.fds.insert(fd, n.to_vec());
        Ok(fd)
    }
}
impl T {
    fn file(&mut self, fd: u32) -> H<&mut Vec<u8>> {
        let n = self.m.fds.get(&fd).ok_or(HostIoError::Errno(HostIoErrno::EBADF))?;
        self.m.files.get_mut(n).ok_or(HostIoError::Errno(HostIoErrno::ENOENT))
    }
}
impl HostIoClose for T {
    fn close(&mut self, fd: u32) -> H<()> {
        self.m.fds.remove(&fd).map(|_| ()).ok_or(HostIoError::Errno(HostIoErrno::EBADF))
    }
}
impl HostIoPread for T {
    fn pread(&mut self, fd: u32, n: usize, off: u64, buf: &mut [u8]) -> H<usize> {
        Ok(part(self.file(fd)?, off, n, buf))
    }
}
impl HostIoPwrite for T {
    fn pwrite(&mut self, fd: u32, off: u64, d: &[u8]) -> H<u64> {
        let f = self.file(fd)?;
        let e = off as usize + d.len();
        if f.len() < e {
            f.resize(e, 0)
        }
        f[off as usize..e].copy_from_slice(d);
        Ok(d.len() as u64)
    }
}
impl HostIoFstat for T {
    fn fstat(&mut self, fd: u32) -> H<HostIoStat> {
        let n = self.file(fd)?.len() as u64;
        Ok(HostIoStat {
            st_dev: 0,
            st_ino: 1,
            st_mode: HostIoOpenMode::S_IFREG | HostIoOpenMode::S_IRUSR,
            st_nlink: 1,
            st_uid: 0,
            st_gid: 0,
            st_rdev: 0,
            st_size: n,
            st_blksize: 512,
            st_blocks: n / 512,
            st_atime: 0,
            st_mtime: 0,
            st_ctime: 0,
        })
    }
}
impl HostIoUnlink for T {
    fn unlink(&mut self, n: &[u8]) -> H<()> {
        self.m.files.remove(n).map(|_| ()).ok_or(HostIoError::Errno(HostIoErrno::ENOENT))
    }
}
impl HostIoSetfs for T {
    fn setfs(&mut self, _: FsKind) -> H<()> {
        Ok(())
    }
}
impl ExtendedMode for T {
    fn run(&mut self, f: Option<&[u8]>, args: Args<'_, '_>) -> R<Pid> {
        let a: Vec<String> = args.map(show).collect();
        self.m.exts.push(format!("run {:?} {:?}", f.map(show), a));
        self.m.fresh();
        Ok(Pid::new(self.m.pid).unwrap())
    }
    fn attach(&mut self, p: Pid) -> R<()> {
        self.m.exts.push(format!("attach {}", p));
        self.m.pid = p.get();
        self.m.fresh();
        Ok(())
    }
    fn query_if_attached(&mut self, _: Pid) -> R<AttachKind> {
        Ok(AttachKind::Attach)
    }
    fn kill(&mut self, p: Option<Pid>) -> R<ShouldTerminate> {
        self.m.exts.push(format!("kill {:?}", p.map(|p| p.get())));
        Ok(if self.m.f.keep { ShouldTerminate::No } else { ShouldTerminate::Yes })
    }
    fn restart(&mut self) -> Result<(), Oops> {
        self.m.exts.push("restart".into());
        self.m.fresh();
        Ok(())
    }
    fn support_configure_aslr(&mut self) -> Option<ConfigureAslrOps<'_, Self>> {
        Some(self)
    }
    fn support_configure_env(&mut self) -> Option<ConfigureEnvOps<'_, Self>> {
        Some(self)
    }
    fn support_configure_startup_shell(&mut self) -> Option<ConfigureStartupShellOps<'_, Self>> {
        Some(self)
    }
    fn support_configure_working_dir(&mut self) -> Option<ConfigureWorkingDirOps<'_, Self>> {
        Some(self)
    }
    fn support_current_active_pid(&mut self) -> Option<CurrentActivePidOps<'_, Self>> {
        Some(self)
    }
}
impl ConfigureAslr for T {
    fn cfg_aslr(&mut self, e: bool) -> R<()> {
        self.m.exts.push(format!("aslr {}", e));
        Ok(())
    }
}
impl ConfigureEnv for T {
    fn set_env(&mut self, k: &[u8], v: Option<&[u8]>) -> R<()> {
        self.m.exts.push(format!("env {} {:?}", show(k), v.map(show)));
        Ok(())
    }
    fn remove_env(&mut self, k: &[u8]) -> R<()> {
        self.m.exts.push(format!("unenv {}", show(k)));
        Ok(())
    }
    fn reset_env(&mut self) -> R<()> {
        self.m.exts.push("resetenv".into());
        Ok(())
    }
}
impl ConfigureStartupShell for T {
    fn cfg_startup_with_shell(&mut self, e: bool) -> R<()> {
        self.m.exts.push(format!("shell {}", e));
        Ok(())
    }
}
impl ConfigureWorkingDir for T {
    fn cfg_working_dir(&mut self, d: Option<&[u8]>) -> R<()> {
        self.m.exts.push(format!("cwd {:?}", d.map(show)));
        Ok(())
    }
}
impl CurrentActivePid for T {
    fn current_active_pid(&mut self) -> Result<Pid, Oops> {
        Ok(Pid::new(self.m.pid).unwrap())
    }
}

// ------------------------------------------------------------- tracepoints

/// the memory an agent expression collects, if it is of the simple kind
fn agent(x: &[u8]) -> Option<Vec<(u64, u64)>> {
    let mut st: Vec<u64> = vec![];
    let mut out = vec![];
    let mut i = 0;
    let arg = |i: usize, n: usize| -> Option<u64> { x.get(i..i + n).map(|b| b.iter().fold(0u64, |a, b| a << 8 | *b as u64)) };
    loop {
        let op = *x.get(i)?;
        i += 1;
        let n = match op {
            0x22 => 1,
            0x23 => 2,
            0x24 => 4,
            0x25 => 8,
            _ => 0,
        };
        match op {
            0x22..=0x25 => {
                st.push(arg(i, n)?);
                i += n;
            }
            0x02 => {
                let (b, a) = (st.pop()?, st.pop()?);
                st.push(a.wrapping_add(b));
            }
            0x04 => {
                let (b, a) = (st.pop()?, st.pop()?);
                st.push(a.wrapping_mul(b));
            }
            // extensions: the values are small and positive
            0x16 | 0x2a => i += 1,
            0x28 => st.push(*st.last()?),
            0x29 => {
                st.pop()?;
            }
            0x0c => {
                let (n, a) = (st.pop()?, st.pop()?);
                out.push((a, n));
            }
            0x0d => {
                out.push((*st.last()?, arg(i, 1)?));
                i += 1;
            }
            0x27 => return Some(out),
            _ => return None,
        }
    }
}

impl T {
    fn tp(&mut self, n: Tracepoint) -> R<&mut Tp> {
        self.calls += 1;
        self.m.tps.iter_mut().find(|t| t.n == n.0).ok_or(TargetError::Errno(2))
    }
    fn next(&self, n: usize) -> TracepointEnumerateStep<u64> {
        let i = self.m.tps.iter().position(|t| t.n == n).unwrap_or(0);
        match self.m.tps.get(i + 1) {
            Some(t) => TracepointEnumerateStep::Next { tp: Tracepoint(t.n), addr: t.addr },
            None => TracepointEnumerateStep::Done,
        }
    }
}
impl Tracepoints for T {
    fn tracepoints_init(&mut self) -> R<()> {
        self.m.tps.clear();
        self.m.frames.clear();
        self.m.sel = None;
        Ok(())
    }
    fn tracepoint_create_begin(&mut self, t: NewTracepoint<u64>) -> R<()> {
        if t.step_count != 0 {
            return Err(TargetError::Errno(95));
        }
        self.m.tps.push(Tp { n: t.number.0, addr: t.addr, on: t.enabled, pass: t.pass_count, ..Tp::default() });
        Ok(())
    }
    fn tracepoint_create_continue(&mut self, n: Tracepoint, a: &TracepointAction<'_, u64>) -> R<()> {
        let t = self.tp(n)?;
        match a {
            TracepointAction::Registers { mask } => {
                // GDB sends the last register's byte first
                let bits: Vec<usize> = mask.iter().rev().enumerate().flat_map(|(k, b)| (0..8).filter(move |i| b >> i & 1 == 1).map(move |i| 8 * k + i)).collect();
                if bits.len() > 16 {
                    t.regs.insert(16);
                } else {
                    // rax rbx rcx rdx rsi rdi rbp rsp r8..r15, as everywhere in GDB
                    t.regs.extend(bits.into_iter().map(|b| if b == 16 { 99 } else { b }));
                }
            }
            TracepointAction::Memory { basereg: None, offset, length } => t.mem.push((*offset, *length)),
            TracepointAction::Memory { .. } => return Err(TargetError::Errno(95)),
            TracepointAction::Expression { expr } => match agent(expr) {
                Some(m) => t.mem.extend(m),
                None => return Err(TargetError::Errno(22)),
            },
        }
        Ok(())
    }
    fn tracepoint_create_complete(&mut self, n: Tracepoint) -> R<()> {
        let t = self.tp(n)?;
        if t.done {
            return Err(TargetError::Errno(17));
        }
        t.done = true;
        Ok(())
    }
    fn tracepoint_status(&self, n: Tracepoint, a: u64) -> R<TracepointStatus> {
        match self.m.tps.iter().find(|t| t.n == n.0 && t.addr == a) {
            Some(t) => Ok(TracepointStatus { hit_count: t.hits, bytes_used: 1000 * t.n as u64 + t.hits }),
            None => Err(TargetError::Errno(2)),
        }
    }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<u64> {
        &mut self.te
    }
    fn tracepoint_enumerate_start(&mut self, n: Option<Tracepoint>, f: &mut dyn FnMut(&NewTracepoint<u64>)) -> R<TracepointEnumerateStep<u64>> {
        let t = match n {
            Some(n) => self.tp(n)?.clone(),
            None => match self.m.tps.first() {
                Some(t) => t.clone(),
                None => return Ok(TracepointEnumerateStep::Done),
            },
        };
        f(&NewTracepoint { number: Tracepoint(t.n), enabled: t.on, addr: t.addr, step_count: 0, pass_count: t.pass });
        Ok(if !t.regs.is_empty() || !t.mem.is_empty() {
            TracepointEnumerateStep::Action
        } else if !t.src.is_empty() {
            TracepointEnumerateStep::Source
        } else {
            self.next(t.n)
        })
    }
    fn tracepoint_enumerate_action(&mut self, n: Tracepoint, step: u64, f: &mut dyn FnMut(&TracepointAction<'_, u64>)) -> R<TracepointEnumerateStep<u64>> {
        let t = self.tp(n)?.clone();
        let k = !t.regs.is_empty() as usize;
        let s = step as usize;
        if s < k {
            let all = t.regs.contains(&16);
            let mut mask = vec![0u8; if all { 7 } else { 2 }];
            let l = mask.len();
            for r in 0..8 * l {
                if all || t.regs.contains(&r) {
                    mask[l - 1 - r / 8] |= 1 << (r % 8);
                }
            }
            f(&TracepointAction::Registers { mask: (&mut mask[..]).into() });
        } else if let Some(m) = t.mem.get(s - k) {
            f(&TracepointAction::Memory { basereg: None, offset: m.0, length: m.1 });
        }
        Ok(if s + 1 < k + t.mem.len() {
            TracepointEnumerateStep::Action
        } else if !t.src.is_empty() {
            TracepointEnumerateStep::Source
        } else {
            self.next(t.n)
        })
    }
    fn trace_buffer_configure(&mut self, c: TraceBufferConfig) -> R<()> {
        match c {
            TraceBufferConfig::Shape(s) => self.m.circ = matches!(s, BufferShape::Circular),
            TraceBufferConfig::Size(n) => self.m.tsize = n,
        }
        Ok(())
    }
    fn trace_buffer_request(&mut self, o: u64, n: usize, f: &mut dyn FnMut(&mut [u8])) -> R<()> {
        self.calls += 1;
        let o = o as usize;
        let l = self.m.traw.len();
        if o < l {
            f(&mut self.m.traw[o..(o + n).min(l)].to_vec());
        }
        Ok(())
    }
    fn trace_experiment_status(&self, f: &mut dyn FnMut(ExperimentStatus<'_>)) -> R<()> {
        f(match self.m.tr {
            Tr::Never => ExperimentStatus::NotRun,
            Tr::On => ExperimentStatus::Running,
            Tr::Off => ExperimentStatus::Stop(if self.m.tnote.is_empty() { None } else { Some(&self.m.tnote) }),
            Tr::Pass(n) => ExperimentStatus::PassCount(Tracepoint(n)),
        });
        Ok(())
    }
    fn trace_experiment_info(&self, f: &mut dyn FnMut(ExperimentExplanation<'_>)) -> R<()> {
        let n = self.m.frames.len();
        f(ExperimentExplanation::Frames(n));
        f(ExperimentExplanation::Created(n));
        f(ExperimentExplanation::Size(self.m.tsize.unwrap_or(TSIZE) as usize));
        f(ExperimentExplanation::Free(77));
        f(ExperimentExplanation::Circular(self.m.circ));
        f(ExperimentExplanation::DisconnectedTracing(false));
        Ok(())
    }
    fn trace_experiment_start(&mut self) -> R<()> {
        if self.m.tps.iter().any(|t| !t.done) {
            return Err(TargetError::Errno(22));
        }
        self.m.tr = Tr::On;
        Ok(())
    }
    fn trace_experiment_stop(&mut self) -> R<()> {
        self.m.tr = Tr::Off;
        Ok(())
    }
    fn select_frame(&mut self, q: FrameRequest<u64>, f: &mut dyn FnMut(FrameDescription)) -> R<()> {
        self.calls += 1;
        let s = self.m.find(match q {
            FrameRequest::Select(n) => Find::Nth(n),
            FrameRequest::AtPC(a) => Find::Pc(a),
            FrameRequest::Hit(n) => Find::Tp(n.0),
            FrameRequest::Between(a, b) => Find::In(a, b),
            FrameRequest::Outside(a, b) => Find::Out(a, b),
        });
        self.m.sel = s;
        if let Some(k) = s {
            f(FrameDescription::FrameNumber(k as u64));
            f(FrameDescription::Hit(Tracepoint(self.m.frames[k].tp)));
        }
        Ok(())
    }
    fn support_tracepoint_source(&mut self) -> Option<TracepointSourceOps<'_, Self>> {
        when!(self, self.m.f.tsrc)
    }
}
const TSIZE: u64 = 5_000_000;
impl TracepointSource for T {
    fn tracepoint_attach_source(&mut self, s: SourceTracepoint<'_, u64>) -> R<()> {
        let t = self.tp(s.number)?;
        if t.addr != s.addr {
            return Err(TargetError::Errno(22));
        }
        let k = match s.kind {
            TracepointSourceType::At => 'a',
            TracepointSourceType::Cond => 'c',
            TracepointSourceType::Cmd => 'k',
        };
        if s.start == 0 {
            t.src.push((k, String::new()));
        }
        let Some(l) = t.src.last_mut() else { return Err(TargetError::Errno(22)) };
        if l.0 != k || l.1.len() != s.start as usize || l.1.len() + s.bytes.len() > s.slen as usize {
            return Err(TargetError::Errno(22));
        }
        l.1.push_str(&String::from_utf8_lossy(&s.bytes));
        Ok(())
    }
    fn tracepoint_enumerate_source(&mut self, n: Tracepoint, step: u64, f: &mut dyn FnMut(&SourceTracepoint<'_, u64>)) -> R<TracepointEnumerateStep<u64>> {
        let t = self.tp(n)?.clone();
        if let Some((k, s)) = t.src.get(step as usize) {
            let kind = match k {
                'a' => TracepointSourceType::At,
                'c' => TracepointSourceType::Cond,
                _ => TracepointSourceType::Cmd,
            };
            f(&SourceTracepoint { number: n, addr: t.addr, kind, start: 0, slen: s.len() as u32, bytes: s.clone().into_bytes().into() });
        }
        Ok(if step as usize + 1 < t.src.len() { TracepointEnumerateStep::Source } else { self.next(t.n) })
    }
}

// -------------------------------------------------------------- event loop

struct Loop<C>(std::marker::PhantomData<C>);

impl<C> BlockingEventLoop for Loop<C>
where
    C: ConnectionExt + Connection<Error = std::io::Error>,
{
    type Target = T;
    type Connection = C;
    type StopReason = Sr;
    fn wait_for_stop_reason(t: &mut T, c: &mut C) -> Result<Event<Sr>, WaitForStopReasonError<Oops, std::io::Error>> {
        if let Some(s) = t.stop.take() {
            return Ok(Event::TargetStopped(s));
        }
        // spinning: the user interrupts
        let t0 = Instant::now();
        let mut kicks = 0;
        loop {
            if let Some(b) = c.peek().map_err(WaitForStopReasonError::Connection)? {
                let r = c.read().map_err(WaitForStopReasonError::Connection)?;
                if r != b {
                    return Err(WaitForStopReasonError::Target(Oops("peek and read disagree".into())));
                }
                return Ok(Event::IncomingData(b));
            }
            if kicks == 0 && t0.elapsed() > Duration::from_millis(60) {
                kicks += 1;
                let _ = Command::new("kill").args(["-INT", &t.gdb.to_string()]).status();
            }
            if t0.elapsed() > Duration::from_secs(8) {
                return Err(WaitForStopReasonError::Target(Oops("no interrupt".into())));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    fn on_interrupt(t: &mut T) -> Result<Option<Sr>, Oops> {
        if !std::mem::take(&mut t.spin) {
            return Ok(None);
        }
        let tid = t.m.thr[t.cur].tid;
        // the loop is left
        t.m.thr[t.cur].regs.rip += 1;
        Ok(t.reason(tid, Why::Sig(2)))
    }
}

fn serve<C>(mut t: T, c: C, buf: Option<usize>) -> (T, String)
where
    C: ConnectionExt + Connection<Error = std::io::Error>,
{
    let mut store = vec![0x55; buf.unwrap_or(0)];
    let mut b = GdbStub::builder(c);
    if buf.is_some() {
        b = b.with_packet_buffer(&mut store);
    }
    let stub = match b.build() {
        Ok(s) => s,
        Err(e) => return (t, format!("builder: {}", e)),
    };
    let r = crate::drive::guard(|| stub.run_blocking::<Loop<C>>(&mut t));
    let end = match r {
        Err(p) => format!("panic {}", p),
        Ok(Ok(DisconnectReason::TargetTerminated(s))) => format!("Terminated({})", s.0),
        Ok(Ok(d)) => format!("{:?}", d),
        Ok(Err(e)) => {
            if e.is_connection_error() {
                "closed".into()
            } else {
                format!("error {}", e)
            }
        }
    };
    (t, end)
}

// -------------------------------------------------------------- the script

enum Want {
    /// output contains
    Has(String),
    /// values printed by `p/x`, `x/…` in hex, in order
    Hex(Vec<u128>),
}

struct Gen {
    r: Rng,
    m: Mach,
    script: String,
    want: Vec<(String, Vec<Want>)>,
    cur: usize,
    pend: Option<u8>,
    bps: Vec<(u32, u64)>,
    wps: Vec<(u32, u64, u64, u8)>,
    nbp: u32,
    ended: Option<String>,
    /// pc was set by the user
    moved: bool,
    dir: String,
    nfile: usize,
    free_of: BTreeSet<u64>,
    outs: Vec<(String, Vec<u8>)>,
    tfile: Option<String>,
    cats: Vec<(u32, Option<Vec<u64>>)>,
    env: BTreeMap<String, Option<String>>,
    shell: bool,
    aslr: bool,
    cwd: Option<String>,
}

const GPR: [&str; 16] = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];
const SEG: [&str; 6] = ["cs", "ss", "ds", "es", "fs", "gs"];
const FPU: [&str; 8] = ["fctrl", "fstat", "ftag", "fiseg", "fioff", "foseg", "fooff", "fop"];
/// signals GDB stops for, and their names
const SIGS: &[(u8, &str)] = &[
    (1, "SIGHUP"), (3, "SIGQUIT"), (4, "SIGILL"), (6, "SIGABRT"), (7, "SIGEMT"), (8, "SIGFPE"), (10, "SIGBUS"), (11, "SIGSEGV"),
    (12, "SIGSYS"), (13, "SIGPIPE"), (15, "SIGTERM"), (17, "SIGSTOP"), (18, "SIGTSTP"), (24, "SIGXCPU"), (25, "SIGXFSZ"),
    (29, "SIGLOST"), (30, "SIGUSR1"), (31, "SIGUSR2"), (32, "SIGPWR"), (45, "SIG33"), (75, "SIG63"), (78, "SIG64"), (141, "SIG127"),
    (142, "SIGINFO"), (145, "EXC_BAD_ACCESS"),
];

impl Gen {
    fn say(&mut self, c: impl AsRef<str>, w: Vec<Want>) {
        let c = c.as_ref();
        self.script.push_str(&format!("echo \\n@@{}@@\\n\n{}\n", self.want.len(), c));
        self.want.push((c.to_string(), w));
    }
    fn quiet(&mut self, c: impl AsRef<str>) {
        self.say(c, vec![]);
    }
    fn t(&mut self) -> &mut Thr {
        &mut self.m.thr[self.cur]
    }
    fn reg(&mut self) {
        let set = self.r.chance(1, 2);
        let k = self.r.below(100);
        let v = self.r.num(64);
        let r = &mut self.m.thr[self.cur].regs;
        let (n, val): (String, u128) = match k {
            0..=44 => {
                let i = self.r.below(16);
                // the frame is found through these
                if set && i != 7 && i != 6 {
                    r.regs[i] = v;
                }
                (GPR[i].into(), r.regs[i] as u128)
            }
            45..=54 => {
                let i = self.r.below(6);
                if set {
                    *[&mut r.segments.cs, &mut r.segments.ss, &mut r.segments.ds, &mut r.segments.es, &mut r.segments.fs, &mut r.segments.gs][i] = v as u32 >> 1;
                }
                let s = &r.segments;
                (SEG[i].into(), [s.cs, s.ss, s.ds, s.es, s.fs, s.gs][i] as u128)
            }
            55..=64 => {
                let i = self.r.below(8);
                let f = &mut r.fpu;
                if set {
                    *[&mut f.fctrl, &mut f.fstat, &mut f.ftag, &mut f.fiseg, &mut f.fioff, &mut f.foseg, &mut f.fooff, &mut f.fop][i] = v as u32 >> 1;
                }
                (FPU[i].into(), [f.fctrl, f.fstat, f.ftag, f.fiseg, f.fioff, f.foseg, f.fooff, f.fop][i] as u128)
            }
            65..=84 => {
                let i = self.r.below(16);
                if set {
                    r.xmm[i] = (v as u128) << 64 | self.r.num(64) as u128;
                }
                (format!("xmm{}.uint128", i), r.xmm[i])
            }
            85..=89 => {
                if set {
                    r.mxcsr = v as u32 >> 1;
                }
                ("mxcsr".into(), r.mxcsr as u128)
            }
            90..=94 => {
                if set {
                    r.eflags = v as u32 >> 1;
                }
                ("eflags".into(), r.eflags as u128)
            }
            _ => ("pc".into(), r.rip as u128),
        };
        if set && n != "pc" && n != "rsp" && n != "rbp" {
            let x = if n.starts_with("xmm") {
                let (lo, hi) = (val as u64, (val >> 64) as u64);
                let b = n.trim_end_matches(".uint128");
                self.quiet(format!("set ${}.v2_int64[0] = {:#x}", b, lo));
                format!("set ${}.v2_int64[1] = {:#x}", b, hi)
            } else {
                format!("set ${} = {:#x}", n, val)
            };
            self.quiet(x);
        }
        if !set || self.r.chance(1, 2) {
            self.say(format!("p/x ${}", n), vec![Want::Hex(vec![val])]);
        }
    }
    fn mem(&mut self) {
        let (base, len) = *self.r.pick(&[(DATA, DATA_LEN), (DATA, DATA_LEN), (STACK, STACK_LEN), (CODE, CODE_LEN)]);
        match self.r.below(6) {
            0 => {
                let n = *self.r.pick(&[1usize, 2, 4, 8]);
                let c = self.r.range(1, 40);
                let a = base + self.r.below((len as usize) - n * c) as u64;
                let v: Vec<u128> = (0..c)
                    .map(|i| {
                        let mut b = [0u8; 16];
                        for k in 0..n {
                            b[k] = self.m.byte(a + (i * n + k) as u64).unwrap();
                        }
                        u128::from_le_bytes(b)
                    })
                    .collect();
                let u = match n {
                    1 => 'b',
                    2 => 'h',
                    4 => 'w',
                    _ => 'g',
                };
                self.say(format!("x/{}x{} {:#x}", c, u, a), vec![Want::Hex(v)]);
            }
            1 | 2 => {
                let (n, ty) = *self.r.pick(&[(1usize, "char"), (2, "short"), (4, "int"), (8, "long")]);
                let a = DATA + self.r.below(FREE as usize - n) as u64;
                let v = self.r.num(n as u32 * 8);
                for k in 0..n {
                    *self.m.mem(a + k as u64).unwrap() = (v >> (8 * k)) as u8;
                }
                self.quiet(format!("set *(unsigned {}*){:#x} = {:#x}", ty, a, v));
                if self.r.chance(1, 2) {
                    self.say(format!("p/x *(unsigned {}*){:#x}", ty, a), vec![Want::Hex(vec![v as u128])]);
                }
            }
            3 => {
                // out
                let n = self.r.range(1, 1500);
                let a = DATA + self.r.below(DATA_LEN as usize - n) as u64;
                let f = format!("{}/out{}", self.dir, self.nfile);
                self.nfile += 1;
                self.quiet(format!("dump binary memory {} {:#x} {:#x}", f, a, a + n as u64));
                let b = self.m.data[(a - DATA) as usize..][..n].to_vec();
                self.outs.push((f, b));
            }
            4 => {
                // in
                let n = self.r.range(1, 1500);
                let a = DATA + self.r.below(FREE as usize - n) as u64;
                let f = format!("{}/in{}", self.dir, self.nfile);
                self.nfile += 1;
                let b = self.r.payload(n);
                let _ = std::fs::write(&f, &b);
                self.m.data[(a - DATA) as usize..][..n].copy_from_slice(&b);
                self.say(format!("restore {} binary {:#x}", f, a), vec![Want::Has("Restoring binary file".into())]);
            }
            _ => {
                let a = *self.r.pick(&[DATA + DATA_LEN, STACK + STACK_LEN, CODE - 1, 0x10, u64::MAX]);
                self.say(format!("p *(char*){:#x}", a), vec![Want::Has("Cannot access memory at address".into())]);
            }
        }
    }
    fn pc(&mut self) -> u64 {
        self.t().regs.rip
    }
    fn points(&mut self) {
        match self.r.below(5) {
            0 | 1 => {
                let pc = self.pc();
                let span = *self.r.pick(&[6usize, 20, 60]);
                let a = (pc + self.r.below(span) as u64).min(CODE + CODE_LEN - 1);
                if self.free_of.contains(&a) || self.bps.iter().any(|b| b.1 == a) || (self.moved && a == pc) {
                    return;
                }
                self.nbp += 1;
                let hw = self.m.f.hw && self.r.chance(1, 3);
                let n = self.nbp;
                self.bps.push((n, a));
                if hw {
                    self.say(format!("hbreak *{:#x}", a), vec![Want::Has(format!("Hardware assisted breakpoint {} at {:#x}", n, a))]);
                } else {
                    self.say(format!("break *{:#x}", a), vec![Want::Has(format!("Breakpoint {} at {:#x}", n, a))]);
                }
            }
            2 | 3 => {
                // event areas: writes at FREE.., reads at FREE + WAREA..
                let k = *self.r.pick(&[2u8, 3, 4]);
                let (len, ty) = *self.r.pick(&[(1u64, "char"), (2, "short"), (4, "int"), (8, "long")]);
                let slot = self.r.below(8) as u64 * 16;
                let a = match k {
                    2 => DATA + FREE + slot,
                    3 => DATA + FREE + WAREA + slot,
                    _ => DATA + FREE + if self.r.chance(1, 2) { WAREA + slot } else { slot },
                };
                if self.wps.iter().any(|w| w.1 == a) {
                    return;
                }
                self.nbp += 1;
                let n = self.nbp;
                self.wps.push((n, a, len, k));
                let (c, t) = match k {
                    2 => ("watch", "Hardware watchpoint"),
                    3 => ("rwatch", "Hardware read watchpoint"),
                    _ => ("awatch", "Hardware access (read/write) watchpoint"),
                };
                self.m.watch = self.wps.iter().map(|w| (w.1, w.2, w.3)).collect();
                self.say(format!("{} *(unsigned {}*){:#x}", c, ty, a), vec![Want::Has(format!("{} {}: *(unsigned {}*){:#x}", t, n, ty, a))]);
            }
            4 if self.r.chance(1, 2) => {
                if self.r.chance(1, 2) || self.cats.is_empty() {
                    self.nbp += 1;
                    let n = self.nbp;
                    if self.r.chance(1, 4) {
                        self.cats.push((n, None));
                        self.say("catch syscall", vec![Want::Has(format!("Catchpoint {} (any syscall)", n))]);
                    } else {
                        let mut v: Vec<u64> = (5000..5004).filter(|_| self.r.chance(1, 2)).collect();
                        if v.is_empty() {
                            v.push(5000 + self.r.below(4) as u64);
                        }
                        let l: Vec<String> = v.iter().map(|k| k.to_string()).collect();
                        let l = l.join(" ");
                        let s = if v.len() > 1 { "s" } else { "" };
                        self.cats.push((n, Some(v)));
                        self.say(format!("catch syscall {}", l), vec![Want::Has(format!("Catchpoint {} (syscall{} {})", n, s, l))]);
                    }
                } else {
                    let i = self.r.below(self.cats.len());
                    let (n, _) = self.cats.remove(i);
                    self.quiet(format!("delete {}", n));
                }
                self.m.catch = if self.cats.is_empty() {
                    None
                } else if self.cats.iter().any(|c| c.1.is_none()) {
                    Some(None)
                } else {
                    Some(Some(self.cats.iter().filter_map(|c| c.1.clone()).flatten().collect()))
                };
            }
            _ => {
                if !self.bps.is_empty() && self.r.chance(1, 2) {
                    let i = self.r.below(self.bps.len());
                    let (n, _) = self.bps.remove(i);
                    self.quiet(format!("delete {}", n));
                } else if !self.wps.is_empty() {
                    let i = self.r.below(self.wps.len());
                    let (n, ..) = self.wps.remove(i);
                    self.m.watch = self.wps.iter().map(|w| (w.1, w.2, w.3)).collect();
                    self.quiet(format!("delete {}", n));
                }
            }
        }
    }
    /// what the user sees for a stop
    fn told(&mut self, w: &Why) -> Vec<Want> {
        match w {
            Why::Sig(n) => {
                self.pend = if *n == 2 { None } else { Some(*n) };
                let name = SIGS.iter().find(|s| s.0 == *n).map_or("SIGINT", |s| s.1);
                vec![Want::Has(format!(" received signal {},", name))]
            }
            // GDB names just one of the two
            Why::Watch(..) if self.bps.iter().any(|b| b.1 == self.m.thr[self.cur].regs.rip) => vec![],
            Why::Watch(_, a) => {
                let n = self.wps.iter().find(|w| w.1 == *a).map_or(0, |w| w.0);
                vec![Want::Has(format!("watchpoint {}: *(unsigned ", n)), Want::Has(format!("*){:#x}", a))]
            }
            Why::Sys(n, e) => vec![Want::Has(format!("{} syscall {})", if *e { "(call to" } else { "(returned from" }, n))],
            Why::Exit(0) => vec![Want::Has("exited normally]".into())],
            Why::Exit(c) => vec![Want::Has(format!("exited with code 0{:o}]", c))],
            Why::Term(s) => {
                let name = SIGS.iter().find(|x| x.0 == *s).map_or("?", |s| s.1);
                vec![Want::Has(format!("Program terminated with signal {},", name))]
            }
            _ => vec![],
        }
    }
    /// backwards
    fn reverse(&mut self) {
        let i = self.cur;
        let n = if self.r.chance(1, 2) { 1 } else { self.r.range(2, 6) };
        // which thread a reverse-continue is about is up to the target
        if self.m.thr.len() == 1 && self.r.chance(1, 3) {
            self.m.sw = self.bps.iter().map(|b| b.1).collect();
            let w = self.m.back(i, false);
            self.m.sw.clear();
            let w = if w == Why::Begin { vec![Want::Has("No more reverse-execution history.".into())] } else { vec![] };
            self.say("reverse-continue", w);
        } else {
            let mut w = vec![];
            for k in 0..n {
                if self.m.back(i, true) == Why::Begin {
                    w.push(Want::Has("No more reverse-execution history.".into()));
                    break;
                }
                let pc = self.pc();
                if k + 1 < n && self.bps.iter().any(|b| b.1 == pc) {
                    break;
                }
            }
            self.say(if n == 1 { "reverse-stepi".to_string() } else { format!("reverse-stepi {}", n) }, w);
        }
        self.moved = false;
        let pc = self.pc();
        self.say("p/x $pc", vec![Want::Hex(vec![pc as u128])]);
    }
    fn resume(&mut self) {
        if self.m.f.rev && self.wps.is_empty() && self.m.catch.is_none() && self.pend.is_none() && !self.moved && self.r.chance(1, 4) {
            return self.reverse();
        }
        let mut n = 1;
        let sig = self.pend.take();
        let cmd = match self.r.below(6) {
            0 | 1 => "stepi".to_string(),
            2 if sig.is_none() && self.m.catch.is_none() => {
                n = self.r.range(2, 6);
                format!("stepi {}", n)
            }
            3 => {
                let here = self.pc();
                if self.bps.iter().any(|b| b.1 == here) {
                    "continue".into()
                } else {
                    let (k, s) = *self.r.pick(SIGS);
                    if self.r.chance(1, 3) {
                        self.step_sig(None, "signal 0".into());
                    } else {
                        self.step_sig(Some(k), format!("signal {}", s));
                    }
                    return;
                }
            }
            _ => "continue".into(),
        };
        let step = cmd.starts_with("stepi");
        self.play(sig, cmd, step, n);
    }
    fn step_sig(&mut self, sig: Option<u8>, cmd: String) {
        self.play(sig, cmd, false, 1);
    }
    fn play(&mut self, mut sig: Option<u8>, cmd: String, step: bool, n: usize) {
        let mut why = Why::Step;
        let i = self.cur;
        for k in 0..n {
            if let Some(s) = sig.take() {
                let tid = self.m.thr[i].tid;
                self.m.sigs.push((tid, s));
            }
            let mut first = k > 0 || !self.moved;
            self.moved = false;
            why = loop {
                let pc = self.m.thr[i].regs.rip;
                if !std::mem::take(&mut first) && !step && self.bps.iter().any(|b| b.1 == pc) {
                    break Why::Sw;
                }
                let before = self.m.data.clone();
                match self.m.exec(i) {
                    None if step => break Why::Step,
                    None => {}
                    Some(Why::Watch(2, a)) => {
                        let l = self.wps.iter().find(|w| w.1 == a).map_or(1, |w| w.2) as usize;
                        let o = (a - DATA) as usize;
                        // unchanged: not shown
                        if before[o..o + l] != self.m.data[o..o + l] {
                            break Why::Watch(2, a);
                        }
                        if step {
                            break Why::Step;
                        }
                    }
                    Some(Why::Spin) => {
                        self.m.thr[i].regs.rip += 1;
                        break Why::Sig(2);
                    }
                    Some(w) => break w,
                }
            };
            if why != Why::Step {
                break;
            }
            let pc = self.m.thr[i].regs.rip;
            if k + 1 < n && self.bps.iter().any(|b| b.1 == pc) {
                // stepping stops there
                break;
            }
        }
        let w = self.told(&why);
        self.say(cmd, w);
        match why {
            Why::Exit(c) => self.ended = Some(format!("TargetExited({})", c)),
            Why::Term(s) => self.ended = Some(format!("Terminated({})", s)),
            _ => {
                let pc = self.pc();
                self.say("p/x $pc", vec![Want::Hex(vec![pc as u128])]);
            }
        }
    }
    /// extended mode: another program, or another process
    fn program(&mut self) {
        for _ in 0..self.r.below(4) {
            let k = format!("VP_{}", (b'A' + self.r.below(4) as u8) as char);
            match self.r.below(6) {
                0 | 1 => {
                    let n = self.r.range(1, 20);
                    let v: String = (0..n).map(|_| *self.r.pick(&['a', 'Z', '0', '#', '$', '}', '*', '=', '+', ';', ':', ','])).collect();
                    let v = v.trim_start_matches('=').to_string() + "x";
                    self.quiet(format!("set environment {} = {}", k, v));
                    self.env.insert(k, Some(v));
                }
                2 => {
                    self.quiet(format!("unset environment {}", k));
                    self.env.insert(k, None);
                }
                3 => {
                    self.shell = self.r.chance(1, 2);
                    let s = if self.shell { "on" } else { "off" };
                    self.quiet(format!("set startup-with-shell {}", s));
                }
                4 => {
                    self.aslr = self.r.chance(1, 2);
                    let s = if self.aslr { "off" } else { "on" };
                    self.quiet(format!("set disable-randomization {}", s));
                }
                _ => {
                    self.cwd = if self.r.chance(1, 3) { None } else { Some(format!("/home/{}", self.r.below(1000))) };
                    let c = self.cwd.clone().unwrap_or_default();
                    self.quiet(format!("set cwd {}", c));
                }
            }
        }
        let p = self.m.pid;
        self.m.exts.push(format!("kill {:?}", Some(p)));
        // for a new program GDB also writes orig_rax, which is no single register here
        if self.m.f.sreg || self.r.chance(1, 3) {
            let n = self.r.range(1, 99999);
            self.m.pid = n;
            self.m.exts.push(format!("attach {}", n));
            self.m.fresh();
            self.quiet(format!("attach {}", n));
        } else {
            // without vRun, GDB falls back to R, which has no reply (which of
            // several threads GDB looks at then depends on what it asked before)
            let old = self.m.thr.len() == 1 && self.r.chance(1, 2);
            let f = if old { String::new() } else { format!("/bin/prog{}", self.r.below(100)) };
            self.quiet(format!("set remote exec-file {}", f));
            self.quiet(format!("set remote run-packet {}", if old { "off" } else { "auto" }));
            let a: Vec<String> = (0..if old { 0 } else { self.r.below(4) }).map(|_| format!("{}{}", self.r.pick(&["-x", "a;b", "#$", "q}", "*", "p,"]), self.r.below(100))).collect();
            self.quiet(format!("set args {}", a.join(" ")));
            self.m.exts.push(format!("aslr {}", self.aslr));
            self.m.exts.push(format!("shell {}", self.shell));
            self.m.exts.push("resetenv".into());
            for (k, v) in &self.env {
                if let Some(v) = v {
                    self.m.exts.push(format!("env {} {:?}", k, Some(v)));
                }
            }
            for (k, v) in &self.env {
                if v.is_none() {
                    self.m.exts.push(format!("unenv {}", k));
                }
            }
            self.m.exts.push(format!("cwd {:?}", self.cwd));
            self.m.exts.push(if old { "restart".into() } else { format!("run {:?} {:?}", Some(f), a) });
            self.m.fresh();
            self.quiet("starti");
        }
        self.cur = 0;
        self.pend = None;
        self.moved = false;
        let pc = self.pc();
        self.say("p/x $pc", vec![Want::Hex(vec![pc as u128])]);
    }
    fn tstart(&mut self) {
        self.m.tps.clear();
        for _ in 0..self.r.range(1, 3) {
            self.nbp += 1;
            let n = self.nbp as usize;
            // one tracepoint at an address
            let addr = CODE + self.r.below(5) as u64 * if self.r.chance(2, 3) { 1 } else { 37 };
            if self.m.tps.iter().any(|t| t.addr == addr) {
                self.nbp -= 1;
                continue;
            }
            let mut t = Tp { n, addr, on: true, done: true, ..Tp::default() };
            self.say(format!("trace *{:#x}", addr), vec![Want::Has(format!("Tracepoint {} at {:#x}", n, addr))]);
            let mut s = format!("actions {}\n", n);
            t.src.push(('a', format!("*{:#x}", addr)));
            if self.r.chance(2, 3) {
                s += "collect $regs\n";
                t.regs.insert(16);
                t.src.push(('k', "collect $regs".into()));
            } else if self.r.chance(1, 2) {
                let k = self.r.below(16);
                s += &format!("collect ${}\n", GPR[k]);
                t.regs.insert(k);
                t.src.push(('k', format!("collect ${}", GPR[k])));
            }
            for _ in 0..self.r.below(4) {
                let (o, l) = (DATA + self.r.below(0xe00) as u64, self.r.range(1, 200) as u64);
                t.mem.push((o, l));
                let c = format!("collect *(unsigned char *){:#x}@{}", o, l);
                s += &c;
                s.push('\n');
                t.src.push(('k', c));
            }
            s += "end";
            if t.src.len() > 1 {
                self.quiet(s);
            }
            if !self.m.f.tsrc {
                t.src.clear();
            }
            if self.r.chance(1, 3) {
                t.pass = self.r.range(1, 12) as u64;
                self.quiet(format!("passcount {} {}", t.pass, n));
            }
            if self.r.chance(1, 6) && !self.m.tps.is_empty() {
                t.on = false;
                self.quiet(format!("disable {}", n));
            }
            self.m.tps.push(t);
        }
        self.m.circ = self.r.chance(1, 3);
        self.quiet(format!("set circular-trace-buffer {}", if self.m.circ { "on" } else { "off" }));
        if self.r.chance(1, 2) {
            let n = 1000 + self.r.num(30);
            self.m.tsize = Some(n);
            self.quiet(format!("set trace-buffer-size {}", n));
        }
        self.m.tr = Tr::On;
        self.quiet("tstart");
        self.tstatus();
    }
    fn tstatus(&mut self) {
        let n = self.m.frames.len();
        let mut w = vec![Want::Has(match self.m.tr {
            Tr::Never => "No trace has been run on the target.".into(),
            Tr::On => "Trace is running on the target.".into(),
            Tr::Off if self.m.tnote.is_empty() => "Trace stopped by a tstop command.".into(),
            Tr::Off => format!("Trace stopped by a tstop command ({}).", String::from_utf8_lossy(&self.m.tnote)),
            Tr::Pass(k) => format!("Trace stopped by tracepoint {}.", k),
        })];
        w.push(Want::Has(format!("Collected {} trace frames.", n)));
        w.push(Want::Has(format!("Trace buffer has 77 bytes of {} bytes free", self.m.tsize.unwrap_or(TSIZE))));
        if self.m.circ {
            w.push(Want::Has("Trace buffer is circular.".into()));
        }
        self.say("tstatus", w);
    }
    /// the end of a trace experiment: look at what was recorded
    fn tlook(&mut self) {
        self.tstatus();
        if self.m.tr == Tr::On {
            self.m.tr = Tr::Off;
            self.quiet("tstop");
            self.tstatus();
        }
        for k in 0..self.m.tps.len() {
            let t = self.m.tps[k].clone();
            let mut w = vec![];
            if t.hits > 0 {
                w.push(Want::Has(format!("already hit {} time", t.hits)));
            }
            w.push(Want::Has(format!("trace buffer usage {} bytes", 1000 * t.n as u64 + t.hits)));
            if t.pass > 0 {
                w.push(Want::Has(format!("pass count {}", t.pass)));
            }
            self.say(format!("info tracepoints {}", t.n), w);
        }
        for _ in 0..self.r.range(2, 12) {
            let pc = |g: &mut Gen| -> u64 {
                let k = g.r.below(g.m.tps.len());
                g.m.tps[k].addr
            };
            let (c, q) = match self.r.below(8) {
                0 | 1 => {
                    let k = self.r.below(self.m.frames.len() + 1) as u64;
                    (format!("tfind {}", k), Find::Nth(k))
                }
                2 => ("tfind".into(), Find::Nth(self.m.sel.map_or(0, |s| s as u64 + 1))),
                3 => match self.m.sel {
                    Some(k) if k > 0 => ("tfind -".into(), Find::Nth(k as u64 - 1)),
                    _ => continue,
                },
                4 => {
                    let a = pc(self);
                    (format!("tfind pc {:#x}", a), Find::Pc(a))
                }
                5 => {
                    let k = self.r.below(self.m.tps.len());
                    let n = self.m.tps[k].n;
                    (format!("tfind tracepoint {}", n), Find::Tp(n))
                }
                6 => {
                    let (a, b) = (pc(self), pc(self) + self.r.below(3) as u64);
                    (format!("tfind range {:#x},{:#x}", a, b), Find::In(a, b))
                }
                _ => {
                    let (a, b) = (pc(self), pc(self) + self.r.below(3) as u64);
                    (format!("tfind outside {:#x},{:#x}", a, b), Find::Out(a, b))
                }
            };
            let s = self.m.find(q);
            self.m.sel = s;
            let Some(k) = s else {
                self.say(c, vec![Want::Has("Target failed to find requested trace frame.".into())]);
                self.quiet("tfind none");
                continue;
            };
            let f = self.m.frames[k].clone();
            self.say(c, vec![Want::Has(format!("Found trace frame {}, tracepoint {}", k, f.tp))]);
            self.say("p/x $pc", vec![Want::Hex(vec![f.regs.rip as u128])]);
            let t = self.m.tps.iter().find(|t| t.n == f.tp).cloned().unwrap_or_default();
            for _ in 0..2 {
                let i = self.r.below(16);
                if t.regs.contains(&16) || t.regs.contains(&i) {
                    self.say(format!("p/x ${}", GPR[i]), vec![Want::Hex(vec![f.regs.regs[i] as u128])]);
                }
            }
            if t.regs.contains(&16) && self.r.chance(1, 2) {
                let i = self.r.below(16);
                self.say(format!("p/x $xmm{}.uint128", i), vec![Want::Hex(vec![f.regs.xmm[i]])]);
            }
            if !f.mem.is_empty() {
                let (a, v) = self.r.pick(&f.mem).clone();
                self.say(format!("x/{}xb {:#x}", v.len(), a), vec![Want::Hex(v.iter().map(|b| *b as u128).collect())]);
            }
        }
        self.m.sel = None;
        self.quiet("tfind none");
        let pc = self.pc();
        self.say("p/x $pc", vec![Want::Hex(vec![pc as u128])]);
        // GDB 15 crashes when it saves a trace that was stopped without a note
        if (self.m.tr != Tr::Off || !self.m.tnote.is_empty()) && self.r.chance(1, 2) {
            let f = format!("{}/trace", self.dir);
            self.say(format!("tsave {}", f), vec![Want::Has(format!("Trace data saved to file '{}'.", f))]);
            self.tfile = Some(f);
        }
    }
    fn other(&mut self) {
        if self.m.f.ext && self.m.f.keep && self.r.chance(1, 4) {
            return self.program();
        }
        match self.r.below(8) {
            0 | 1 => {
                let n = self.r.range(1, 60);
                let mut c: String = (0..n).map(|_| *self.r.pick(&['a', 'Z', '0', ' ', '#', '$', '}', '*', '~', '+', ',', ';', ':'])).collect();
                c = c.trim().to_string();
                if c.is_empty() {
                    c = "x".into();
                }
                self.m.mon.push(c.clone().into_bytes());
                let o = String::from_utf8_lossy(&self.m.mon_out).to_string();
                self.say(format!("monitor {}", c), vec![Want::Has(o)]);
            }
            2 | 3 => {
                let mut w = vec![];
                for t in &self.m.thr {
                    let mut x = if self.m.f.multi { format!("Thread {}.{}", self.m.pid, t.tid) } else { format!("Thread {}.1", self.m.pid) };
                    if self.m.f.multi && self.m.f.extra {
                        x += &format!(" ({})", extra(t.tid));
                    }
                    w.push(Want::Has(x));
                }
                self.say("info threads", w);
            }
            4 if self.m.f.multi => {
                let i = self.r.below(self.m.thr.len());
                if self.pend.is_some() || self.moved {
                    return;
                }
                self.cur = i;
                self.quiet(format!("thread {}", i + 1));
                let pc = self.pc();
                self.say("p/x $pc", vec![Want::Hex(vec![pc as u128])]);
                // whether a breakpoint here counts as hit already is GDB's business
                while let Some(k) = self.bps.iter().position(|b| b.1 == pc) {
                    let (n, _) = self.bps.remove(k);
                    self.quiet(format!("delete {}", n));
                }
                self.moved = true;
            }
            5 => {
                let n = *self.r.pick(&[0usize, 1, 10, 300, 3000, 9000]);
                let b = self.r.payload(n);
                let f = format!("{}/put{}", self.dir, self.nfile);
                let t = format!("/remote/{}", self.nfile);
                self.nfile += 1;
                let _ = std::fs::write(&f, &b);
                self.m.files.insert(t.clone().into_bytes(), b.clone());
                self.say(format!("remote put {} {}", f, t), vec![Want::Has("Successfully sent file".into())]);
                if self.r.chance(1, 2) {
                    let g = format!("{}/get{}", self.dir, self.nfile);
                    self.nfile += 1;
                    self.say(format!("remote get {} {}", t, g), vec![Want::Has("Successfully fetched file".into())]);
                    self.outs.push((g, b));
                }
                if self.r.chance(1, 4) {
                    self.m.files.remove(t.as_bytes());
                    self.say(format!("remote delete {}", t), vec![Want::Has("Successfully deleted file".into())]);
                }
            }
            6 => {
                self.say("remote get /nope /dev/null", vec![Want::Has("No such file or directory".into())]);
            }
            _ => {
                let v: Vec<String> = self.m.auxv.chunks(16).map(|c| u64::from_le_bytes(c[8..].try_into().unwrap()).to_string()).collect();
                self.say("info auxv", v.into_iter().take(3).map(Want::Has).collect());
            }
        }
    }
}

// ---------------------------------------------------------------- one case

fn world(r: &mut Rng) -> Mach {
    let mut m = Mach::default();
    m.f = Feat {
        multi: r.chance(2, 3),
        sreg: r.chance(2, 3),
        ext: r.chance(1, 4),
        xup: r.chance(3, 4),
        memmap: r.chance(1, 3),
        rle: r.chance(3, 4),
        noack: r.chance(3, 4),
        hw: r.chance(3, 4),
        extra: r.chance(1, 2),
        step_done: r.chance(1, 2),
        keep: r.chance(2, 3),
        trace: r.chance(1, 2),
        tsrc: r.chance(2, 3),
        rev: r.chance(1, 3),
    };
    m.pid = if m.f.ext { r.range(1, 70000) } else { 1 };
    let n = if m.f.multi { r.range(1, 4) } else { 1 };
    let mut tid = if m.f.multi { r.range(1, 60) } else { 1 };
    for k in 0..n {
        let mut g = X86_64CoreRegs::default();
        for x in g.regs.iter_mut() {
            *x = r.num(64);
        }
        g.regs[7] = STACK + 0x400 + 8 * r.below(64) as u64;
        g.regs[6] = STACK + 0x800 + 8 * r.below(64) as u64;
        g.rip = CODE + 0x80 * k as u64;
        g.eflags = r.num(31) as u32;
        for x in g.xmm.iter_mut() {
            *x = (r.num(64) as u128) << 64 | r.num(64) as u128;
        }
        for x in g.st.iter_mut() {
            *x = r.bytes(10).try_into().unwrap();
        }
        g.mxcsr = r.num(31) as u32;
        for x in [&mut g.segments.cs, &mut g.segments.ss, &mut g.segments.ds, &mut g.segments.es, &mut g.segments.fs, &mut g.segments.gs] {
            *x = r.num(31) as u32;
        }
        let f = &mut g.fpu;
        for x in [&mut f.fctrl, &mut f.fstat, &mut f.ftag, &mut f.fiseg, &mut f.fioff, &mut f.foseg, &mut f.fooff, &mut f.fop] {
            *x = r.num(31) as u32;
        }
        m.thr.push(Thr { tid, regs: g, insys: false });
        tid += r.range(1, 300);
    }
    m.data = r.payload(DATA_LEN as usize);
    m.stack = r.payload(STACK_LEN as usize);
    for a in 0..CODE_LEN - 1 {
        let act = match r.below(60) {
            0 => Act::Sig(r.pick(SIGS).0),
            1..=5 => {
                let n = *r.pick(&[1usize, 2, 4, 8]);
                Act::Write(DATA + FREE + r.below(8) as u64 * 16, r.bytes(n))
            }
            6..=9 => Act::Read(DATA + FREE + *r.pick(&[0, WAREA]) + r.below(8) as u64 * 16),
            10 | 11 => Act::Sys(5000 + r.below(4) as u64),
            12 if r.chance(1, 12) => Act::Exit(r.next() as u8),
            12 if r.chance(1, 12) => Act::Term(r.pick(SIGS).0),
            12 if r.chance(1, 8) => Act::Spin,
            _ => continue,
        };
        m.prog.insert(CODE + a, act);
    }
    m.prog.insert(CODE + CODE_LEN - 1, Act::Exit(0));
    for _ in 0..r.below(12) {
        let (k, v) = (*r.pick(&[6u64, 11, 12, 13, 14, 17]), r.num(31));
        m.auxv.extend(k.to_le_bytes());
        m.auxv.extend(v.to_le_bytes());
    }
    if !m.auxv.is_empty() {
        m.auxv.extend([0; 16]);
    }
    let n = *r.pick(&[0usize, 1, 300, 1999, 2000, 2001, 9000]);
    m.traw = (0..n).map(|_| r.next() as u8).collect();
    if m.f.trace && r.chance(1, 3) {
        // left by an earlier client
        for k in 0..r.range(1, 4) {
            let addr = CODE + 8 + 5 * k as u64;
            let mut t = Tp { n: r.range(1, 300) + 300 * k, addr, on: true, done: true, ..Tp::default() };
            if r.chance(1, 3) {
                t.pass = r.range(1, 40) as u64;
            }
            if m.f.tsrc {
                t.src.push(('a', format!("*{:#x}", addr)));
            }
            if r.chance(1, 2) {
                t.regs.insert(16);
                t.src.push(('k', "collect $regs".into()));
            }
            for _ in 0..r.below(3) {
                let (o, l) = (DATA + r.below(0xe00) as u64, r.range(1, 200) as u64);
                t.mem.push((o, l));
                t.src.push(('k', format!("collect *(unsigned char *){:#x}@{}", o, l)));
            }
            if !m.f.tsrc {
                t.src.clear();
            }
            m.tps.push(t);
        }
    }
    if r.chance(2, 3) {
        m.tnote = (0..r.range(1, 30)).map(|_| *r.pick(b"abc XYZ:;#$}*,-0129")).collect();
    }
    let n = *r.pick(&[0usize, 1, 10, 200, 3000]);
    m.mon_out = (0..n).map(|_| *r.pick(b"aaaaaaaaaaZ0123 #$}*~:;\\[]|^&!<>?/+-_.,")).collect();
    m
}

fn bad(m: String) -> Vec<Fail> {
    vec![Fail { tags: vec!["P33"], label: "gdb", msg: m }]
}

/// failures so far: each may take long, and a few are enough
static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn gdb(_: &'static str, seed: u64, hb: &dyn Fn()) -> (Vec<Fail>, Stats) {
    use std::sync::atomic::Ordering::Relaxed;
    if SEEN.load(Relaxed) >= 12 {
        let mut st = Stats::default();
        st.note("left_out_after_failures", 1);
        return (vec![], st);
    }
    let r = judge(seed, hb);
    SEEN.fetch_add(r.0.len(), Relaxed);
    r
}

fn judge(seed: u64, hb: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let (f, st) = attempt(seed, hb);
    match f {
        Ok(f) => (f, st),
        Err(_) => {
            hb();
            // out of time: once more, with nothing else changed
            let (f, mut st) = attempt(seed, hb);
            st.note("repeated", 1);
            match f {
                Ok(f) => (f, st),
                Err(spin) => {
                    st.note("no_verdict", 1);
                    if spin {
                        (vec![], st)
                    } else {
                        (bad("the session did not come to an end".into()), st)
                    }
                }
            }
        }
    }
}

fn attempt(seed: u64, hb: &dyn Fn()) -> (Result<Vec<Fail>, bool>, Stats) {
    let mut r = Rng::new(mix(seed, 0x6db));
    let mut st = Stats::default();
    st.sessions = 1;
    let m = world(&mut r);
    let dir = crate::runner::root().join(format!("scratch/gdb-{:x}-{}", seed, std::process::id()));
    let dir = dir.to_string_lossy().to_string();
    let _ = std::fs::create_dir_all(&dir);
    let res = inner(seed, &mut r, m, &dir, &mut st, hb);
    let _ = std::fs::remove_dir_all(&dir);
    (res, st)
}

fn inner(seed: u64, r: &mut Rng, m: Mach, dir: &str, st: &mut Stats, hb: &dyn Fn()) -> Result<Vec<Fail>, bool> {
    let real = m.clone();
    let mut g = Gen {
        r: Rng::new(r.next()),
        m,
        script: String::new(),
        want: vec![],
        cur: 0,
        pend: None,
        bps: vec![],
        wps: vec![],
        nbp: 0,
        ended: None,
        moved: false,
        dir: dir.to_string(),
        nfile: 0,
        free_of: BTreeSet::new(),
        outs: vec![],
        tfile: None,
        cats: vec![],
        env: BTreeMap::new(),
        shell: true,
        aslr: false,
        cwd: None,
    };
    for (a, x) in &g.m.prog {
        match x {
            Act::Sig(_) | Act::Spin => {
                g.free_of.insert(a + 1);
            }
            Act::Sys(_) => {
                g.free_of.insert(*a);
                g.free_of.insert(a + 1);
            }
            _ => {}
        }
    }
    let spin = g.m.prog.values().any(|a| *a == Act::Spin);
    let tcp = r.chance(1, 2);
    let buf = if r.chance(1, 2) { None } else { Some(*r.pick(&[1300usize, 2000, 4096, 8192])) };
    // transport
    let path = format!("{}/sock", dir);
    enum L {
        Tcp(TcpListener),
        Unix(std::os::unix::net::UnixListener),
    }
    let (l, addr) = if tcp {
        match TcpListener::bind("127.0.0.1:0") {
            Ok(l) => {
                let a = l.local_addr().map(|a| a.to_string()).unwrap_or_default();
                (L::Tcp(l), a)
            }
            Err(_) => {
                st.note("no_socket", 1);
                return Ok(vec![]);
            }
        }
    } else {
        match std::os::unix::net::UnixListener::bind(&path) {
            Ok(l) => (L::Unix(l), path.clone()),
            Err(_) => {
                st.note("no_socket", 1);
                return Ok(vec![]);
            }
        }
    };
    let pre = [
        "set confirm off", "set pagination off", "set width 0", "set height 0", "set print thread-events off", "set remotetimeout 60", "set tcp connect-timeout 60",
        "set print inferior-events off", "set startup-quietly on", "set history save off", "set debuginfod enabled off", "set auto-load off", "set can-use-hw-watchpoints 1", "set architecture i386:x86-64",
        "set remote hardware-watchpoint-limit -1", "set sysroot /nonexistent",
    ];
    for c in pre {
        g.script.push_str(c);
        g.script.push('\n');
    }
    if !g.m.f.xup {
        st.note("hex_writes", 1);
    }
    let ext = g.m.f.ext;
    let c = format!("target {} {}", if ext { "extended-remote" } else { "remote" }, addr);
    g.quiet(c);
    if g.m.f.multi {
        g.quiet("set scheduler-locking on");
    }
    let pc = g.pc();
    g.say("p/x $pc", vec![Want::Hex(vec![pc as u128])]);
    if g.m.f.memmap && r.chance(1, 2) {
        let w = [(CODE, CODE_LEN, "rw"), (DATA, DATA_LEN, "rw"), (STACK, STACK_LEN, "rw")]
            .iter()
            .map(|(a, l, k)| Want::Has(format!("{:#018x} {:#018x} {}", a, a + l, k)))
            .collect();
        g.say("info mem", w);
    }
    if !g.m.tps.is_empty() {
        // GDB takes over what it finds
        let mut w = vec![];
        // (the last one first)
        for t in g.m.tps.iter().rev() {
            g.nbp += 1;
            w.push(Want::Has(format!("{:<7} tracepoint     keep y   {:#018x}", g.nbp, t.addr)));
            w.extend(t.src.iter().filter(|s| s.0 == 'k').map(|s| Want::Has(s.1.clone())));
            if t.pass > 0 {
                w.push(Want::Has(format!("pass count {}", t.pass)));
            }
        }
        let n = g.m.tps.len();
        let mut x = "info tracepoints".to_string();
        if n == 1 && r.chance(1, 2) {
            x = format!("info tracepoints {}", g.nbp);
        }
        g.say(x, w);
        st.note("tracepoints_taken_over", n as u64);
        g.quiet("delete tracepoints");
    }
    let tracing = g.m.f.trace && r.chance(2, 3);
    if tracing {
        g.tstart();
    }
    let n = r.range(5, 60);
    for _ in 0..n {
        if g.ended.is_some() {
            break;
        }
        match g.r.below(12) {
            0..=2 => g.reg(),
            3 | 4 => g.mem(),
            5 | 6 => g.points(),
            7..=10 => g.resume(),
            _ => g.other(),
        }
    }
    if tracing && g.ended.is_none() {
        g.tlook();
    }
    let end = match g.ended.clone() {
        Some(e) => e,
        None => match r.below(3) {
            0 => {
                g.quiet("detach");
                "Disconnect".to_string()
            }
            1 => {
                g.quiet("kill");
                if ext {
                    let p = g.m.pid;
                    g.m.exts.push(format!("kill {:?}", Some(p)));
                }
                if ext && g.m.f.keep {
                    "closed".into()
                } else {
                    "Kill".into()
                }
            }
            _ => {
                g.quiet("disconnect");
                "closed".into()
            }
        },
    };
    g.script.push_str("echo \\n@@end@@\\n\nquit\n");
    let sf = format!("{}/script", dir);
    let of = format!("{}/out", dir);
    let _ = std::fs::write(&sf, &g.script);
    let (Ok(i), Ok(o)) = (std::fs::File::open(&sf), std::fs::File::create(&of)) else {
        st.note("no_scratch", 1);
        return Ok(vec![]);
    };
    let Ok(e) = o.try_clone() else { return Ok(vec![]) };
    let Ok(mut child) = Command::new("gdb").args(["-nx", "-q"]).env("LC_ALL", "C").env("HOME", dir).env_remove("DEBUGINFOD_URLS").stdin(i).stdout(o).stderr(e).spawn() else {
        st.note("no_gdb", 1);
        return Ok(vec![]);
    };
    let pid = child.id();
    let t = T { te: Default::default(), m: real, acts: vec![], cur: 0, stop: None, spin: false, gdb: pid, calls: 0 };
    let th = std::thread::spawn(move || {
        macro_rules! acc {
            ($l:ident) => {{
                let _ = $l.set_nonblocking(true);
                let t0 = Instant::now();
                loop {
                    match $l.accept() {
                        Ok((c, _)) => {
                            let _ = c.set_nonblocking(false);
                            break Some(c);
                        }
                        Err(_) if t0.elapsed() < Duration::from_secs(30) => std::thread::sleep(Duration::from_millis(2)),
                        Err(_) => break None,
                    }
                }
            }};
        }
        // after an orderly end the socket stays open until GDB is gone: it may
        // still acknowledge the last packet
        macro_rules! kept {
            ($l:ident) => {
                match acc!($l) {
                    Some(c) => {
                        let keep = c.try_clone().ok();
                        let (t, e) = serve(t, c, buf);
                        let both = e.starts_with("error") || e.starts_with("panic");
                        if let Some(k) = &keep {
                            let _ = k.shutdown(if both { std::net::Shutdown::Both } else { std::net::Shutdown::Write });
                        }
                        (t, e, Box::new(keep) as Box<dyn std::any::Any + Send>)
                    }
                    None => (t, "no client".to_string(), Box::new(()) as _),
                }
            };
        }
        match l {
            L::Tcp(l) => kept!(l),
            L::Unix(l) => kept!(l),
        }
    });
    let t0 = Instant::now();
    let mut late = false;
    loop {
        match child.try_wait() {
            Ok(Some(_)) => break,
            _ if t0.elapsed() > Duration::from_secs(40) => {
                late = true;
                let _ = child.kill();
                let _ = child.wait();
                break;
            }
            _ => {
                hb();
                std::thread::sleep(Duration::from_millis(3))
            }
        }
    }
    // nobody is talking to it any more
    let t0 = Instant::now();
    while !th.is_finished() {
        if t0.elapsed() > Duration::from_secs(30) {
            return Ok(bad("the stub did not notice that GDB is gone".into()));
        }
        hb();
        std::thread::sleep(Duration::from_millis(2));
    }
    let (t, got_end, _keep) = match th.join() {
        Ok(x) => x,
        Err(_) => return Ok(bad("the stub side panicked".into())),
    };
    let mut text = String::new();
    let _ = std::fs::File::open(&of).and_then(|mut f| {
        let mut b = vec![];
        f.read_to_end(&mut b)?;
        text = String::from_utf8_lossy(&b).replace("(gdb) ", "");
        Ok(())
    });
    if std::env::var("GDB_SHOW").is_ok() {
        let _ = std::io::stdout().write_all(format!("--- script\n{}\n--- output\n{}\n--- end {} {}\n", g.script, text, got_end, end).as_bytes());
    }
    if late || got_end == "no client" || got_end.contains("no interrupt") {
        return Err(spin || got_end == "no client");
    }
    // sections
    let mut secs: BTreeMap<usize, String> = BTreeMap::new();
    let mut cur = None;
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("@@") {
            if let Some((n, rest)) = x.split_once("@@") {
                cur = n.parse::<usize>().ok();
                if let Some(c) = cur {
                    secs.insert(c, rest.to_string());
                }
                continue;
            }
        }
        if let Some(c) = cur {
            let s = secs.entry(c).or_default();
            s.push_str(l);
            s.push('\n');
        }
    }
    let hist = |k: usize| g.want[k.saturating_sub(12)..=k].iter().map(|w| w.0.clone()).collect::<Vec<_>>().join(" | ");
    for (k, (cmd, want)) in g.want.iter().enumerate() {
        st.steps += 1;
        const KINDS: &[&str] = &[
            "p", "x", "set", "dump", "restore", "break", "hbreak", "watch", "rwatch", "awatch", "catch", "delete", "stepi", "continue", "signal", "monitor", "info", "thread", "remote", "attach", "starti", "target", "detach",
            "kill", "disconnect", "unset", "reverse-stepi", "reverse-continue", "trace", "actions", "passcount", "tstart", "tstatus", "tstop", "tfind", "tsave",
        ];
        let word = cmd.split(|c| c == ' ' || c == '/').next().unwrap_or("");
        if let Some(w) = KINDS.iter().find(|w| **w == word) {
            *st.labels.entry(w).or_default() += 1;
        }
        let got = secs.get(&k).cloned().unwrap_or_default();
        for w in want {
            st.note("outputs_checked", 1);
            let ok = match w {
                Want::Has(s) => got.contains(s.as_str()) || s.is_empty(),
                Want::Hex(v) => hexes(&got) == *v,
            };
            if !ok {
                let w = match w {
                    Want::Has(s) => format!("[{}]", s.chars().take(200).collect::<String>()),
                    Want::Hex(v) => format!("{:x?}", v),
                };
                return Ok(bad(format!("GDB shows [{}] for [{}], expected {}\n before: {}", got.trim().chars().take(300).collect::<String>(), cmd, w, hist(k))));
            }
        }
    }
    for (f, b) in &g.outs {
        let got = std::fs::read(f).unwrap_or_default();
        st.note("files_compared", 1);
        if got != *b {
            let i = got.iter().zip(b).position(|(x, y)| x != y).unwrap_or(got.len().min(b.len()));
            return Ok(bad(format!("file {} has {} bytes instead of {}, first difference at {}", f.rsplit('/').next().unwrap_or(""), got.len(), b.len(), i)));
        }
    }
    if let Some(f) = &g.tfile {
        let got = std::fs::read(f).unwrap_or_default();
        st.note("trace_files_compared", 1);
        let raw = &g.m.traw;
        // the header, then the trace buffer, then the end marker
        let n = got.len().saturating_sub(raw.len() + 4);
        if got[n..got.len().saturating_sub(4)] != raw[..] {
            return Ok(bad(format!("the saved trace buffer isn't what the target holds: {} bytes in a file of {}", raw.len(), got.len())));
        }
        let head = String::from_utf8_lossy(&got[..n]).to_string();
        for t in &g.m.tps {
            let l = format!("tp T{:x}:{:x}:{}:0:{:x}", t.n, t.addr, if t.on { 'E' } else { 'D' }, t.pass);
            if !head.contains(&l) {
                return Ok(bad(format!("the saved trace does not have [{}]: {}", l, short(head))));
            }
        }
    }
    if got_end != end {
        return Ok(bad(format!("the session ended with [{}] instead of [{}]; last commands {}", got_end, end, hist(g.want.len() - 1))));
    }
    st.target_calls += t.calls;
    *st.ends.entry(got_end.split('(').next().unwrap_or("").to_string()).or_default() += 1;
    st.cfgs.insert(fnv(7, format!("{:?} {:?} {}", g.m.f, buf, tcp).as_bytes()));
    let (a, b) = (&t.m, &g.m);
    macro_rules! same {
        ($($f:ident)*) => {$(
            if a.$f != b.$f {
                return Ok(bad(format!("in the end the target's {} is {} instead of {}", stringify!($f), short(format!("{:x?}", a.$f)), short(format!("{:x?}", b.$f)))));
            }
        )*}
    }
    if tracing {
        same!(tps frames circ tsize);
        st.note("trace_frames", a.frames.len() as u64);
    }
    same!(thr data stack sigs mon files exts);
    if !a.sw.is_empty() && end == "Disconnect" {
        return Ok(bad(format!("breakpoints left behind at {:x?}", a.sw)));
    }
    st.distinct.insert(fnv(seed, text.as_bytes()));
    Ok(vec![])
}

fn short(s: String) -> String {
    s.chars().take(400).collect()
}

/// the values in GDB's output: after `=` or `:`
fn hexes(s: &str) -> Vec<u128> {
    let mut v = vec![];
    for l in s.lines() {
        let rest = match l.split_once(|c| c == '=' || c == ':') {
            Some((_, r)) => r,
            None => continue,
        };
        for t in rest.split_whitespace() {
            if let Some(h) = t.strip_prefix("0x") {
                if let Ok(x) = u128::from_str_radix(h, 16) {
                    v.push(x)
                }
            }
        }
    }
    v
}
