//! A target that implements only what the traits require and leaves every
//! default method alone. What it does implement is the mock's.
use crate::target::*;
use gdbstub::common::{Pid, Signal, Tid};
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::breakpoints::*;
use gdbstub::target::ext::extended_mode::*;
use gdbstub::target::ext::host_io::*;
use gdbstub::target::ext::tracepoints::*;
use gdbstub::target::{Target, TargetResult};

pub struct Mini<U: HU>(pub Mock<U>);

/// the mock with the same (lack of) features
pub fn restrict(c: &mut Cfg) {
    use F::*;
    for f in [GUARD, MON, SECOFF, XMLOVR, LLDBOVR, MEMMAP, CATCH, EXECF, AUXV, LIBS, SREG, EXTRA] {
        c.set(f, false);
    }
    for f in [HW, WATCH, EASLR, EENV, ESHELL, EWD, EPID, TSRC, HOPEN, HCLOSE, HPREAD, HPWRITE, HFSTAT, HUNLINK, HREADLINK, HSETFS] {
        c.set(f, false);
    }
    for f in [STEP, RANGE, RSTEP, RCONT] {
        c.set(f, false);
    }
    c.0 |= 1 << 63;
    // documented defaults
    for f in [NOACK, XUP, RSTUB, RLE, USEXML, USELLDB] {
        c.set(f, true);
    }
}

macro_rules! on {
    ($self:ident, $f:ident) => {
        if $self.0.has(F::$f) {
            Some($self)
        } else {
            None
        }
    };
}

impl<U: HU> Target for Mini<U> {
    type Arch = TA<U>;
    type Error = TErr;
    fn base_ops(&mut self) -> BaseOps<'_, TA<U>, TErr> {
        if self.0.has(F::MULTI) {
            BaseOps::MultiThread(self)
        } else {
            BaseOps::SingleThread(self)
        }
    }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> {
        on!(self, BP)
    }
    fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> {
        on!(self, EXT)
    }
    fn support_tracepoints(&mut self) -> Option<TracepointsOps<'_, Self>> {
        on!(self, TRACE)
    }
    fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> {
        on!(self, HOSTIO)
    }
}

impl<U: HU> SingleThreadBase for Mini<U> {
    fn read_registers(&mut self, regs: &mut HRegs<U>) -> TargetResult<(), Self> {
        SingleThreadBase::read_registers(&mut self.0, regs)
    }
    fn write_registers(&mut self, regs: &HRegs<U>) -> TargetResult<(), Self> {
        SingleThreadBase::write_registers(&mut self.0, regs)
    }
    fn read_addrs(&mut self, a: U, data: &mut [u8]) -> TargetResult<usize, Self> {
        SingleThreadBase::read_addrs(&mut self.0, a, data)
    }
    fn write_addrs(&mut self, a: U, data: &[u8]) -> TargetResult<(), Self> {
        SingleThreadBase::write_addrs(&mut self.0, a, data)
    }
    fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> {
        on!(self, RESUME)
    }
}
impl<U: HU> MultiThreadBase for Mini<U> {
    fn read_registers(&mut self, regs: &mut HRegs<U>, t: Tid) -> TargetResult<(), Self> {
        MultiThreadBase::read_registers(&mut self.0, regs, t)
    }
    fn write_registers(&mut self, regs: &HRegs<U>, t: Tid) -> TargetResult<(), Self> {
        MultiThreadBase::write_registers(&mut self.0, regs, t)
    }
    fn read_addrs(&mut self, a: U, data: &mut [u8], t: Tid) -> TargetResult<usize, Self> {
        MultiThreadBase::read_addrs(&mut self.0, a, data, t)
    }
    fn write_addrs(&mut self, a: U, data: &[u8], t: Tid) -> TargetResult<(), Self> {
        MultiThreadBase::write_addrs(&mut self.0, a, data, t)
    }
    fn list_active_threads(&mut self, cb: &mut dyn FnMut(Tid)) -> Result<(), TErr> {
        MultiThreadBase::list_active_threads(&mut self.0, cb)
    }
    fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> {
        on!(self, RESUME)
    }
}
impl<U: HU> SingleThreadResume for Mini<U> {
    fn resume(&mut self, signal: Option<Signal>) -> Result<(), TErr> {
        SingleThreadResume::resume(&mut self.0, signal)
    }
}
impl<U: HU> MultiThreadResume for Mini<U> {
    fn resume(&mut self) -> Result<(), TErr> {
        MultiThreadResume::resume(&mut self.0)
    }
    fn clear_resume_actions(&mut self) -> Result<(), TErr> {
        self.0.clear_resume_actions()
    }
    fn set_resume_action_continue(&mut self, t: Tid, s: Option<Signal>) -> Result<(), TErr> {
        self.0.set_resume_action_continue(t, s)
    }
}
impl<U: HU> Breakpoints for Mini<U> {
    fn support_sw_breakpoint(&mut self) -> Option<SwBreakpointOps<'_, Self>> {
        on!(self, SW)
    }
}
impl<U: HU> SwBreakpoint for Mini<U> {
    fn add_sw_breakpoint(&mut self, a: U, k: HKind) -> TargetResult<bool, Self> {
        self.0.add_sw_breakpoint(a, k)
    }
    fn remove_sw_breakpoint(&mut self, a: U, k: HKind) -> TargetResult<bool, Self> {
        self.0.remove_sw_breakpoint(a, k)
    }
}
impl<U: HU> HostIo for Mini<U> {}
impl<U: HU> ExtendedMode for Mini<U> {
    fn run(&mut self, f: Option<&[u8]>, args: Args<'_, '_>) -> TargetResult<Pid, Self> {
        self.0.run(f, args)
    }
    fn attach(&mut self, pid: Pid) -> TargetResult<(), Self> {
        self.0.attach(pid)
    }
    fn query_if_attached(&mut self, pid: Pid) -> TargetResult<AttachKind, Self> {
        self.0.query_if_attached(pid)
    }
    fn kill(&mut self, pid: Option<Pid>) -> TargetResult<ShouldTerminate, Self> {
        self.0.kill(pid)
    }
    fn restart(&mut self) -> Result<(), TErr> {
        self.0.restart()
    }
    // `on_start` has a default: nothing to be done
}
impl<U: HU> Tracepoints for Mini<U> {
    fn tracepoints_init(&mut self) -> TargetResult<(), Self> {
        self.0.tracepoints_init()
    }
    fn tracepoint_create_begin(&mut self, t: NewTracepoint<U>) -> TargetResult<(), Self> {
        self.0.tracepoint_create_begin(t)
    }
    fn tracepoint_create_continue(&mut self, t: Tracepoint, a: &TracepointAction<'_, U>) -> TargetResult<(), Self> {
        self.0.tracepoint_create_continue(t, a)
    }
    fn tracepoint_create_complete(&mut self, t: Tracepoint) -> TargetResult<(), Self> {
        self.0.tracepoint_create_complete(t)
    }
    fn tracepoint_status(&self, t: Tracepoint, a: U) -> TargetResult<TracepointStatus, Self> {
        self.0.tracepoint_status(t, a)
    }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<U> {
        self.0.tracepoint_enumerate_state()
    }
    fn tracepoint_enumerate_start(
        &mut self,
        t: Option<Tracepoint>,
        f: &mut dyn FnMut(&NewTracepoint<U>),
    ) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        self.0.tracepoint_enumerate_start(t, f)
    }
    fn tracepoint_enumerate_action(
        &mut self,
        t: Tracepoint,
        s: u64,
        f: &mut dyn FnMut(&TracepointAction<'_, U>),
    ) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        self.0.tracepoint_enumerate_action(t, s, f)
    }
    fn trace_buffer_configure(&mut self, c: TraceBufferConfig) -> TargetResult<(), Self> {
        self.0.trace_buffer_configure(c)
    }
    fn trace_buffer_request(&mut self, o: u64, l: usize, f: &mut dyn FnMut(&mut [u8])) -> TargetResult<(), Self> {
        self.0.trace_buffer_request(o, l, f)
    }
    fn trace_experiment_status(&self, r: &mut dyn FnMut(ExperimentStatus<'_>)) -> TargetResult<(), Self> {
        self.0.trace_experiment_status(r)
    }
    fn trace_experiment_info(&self, r: &mut dyn FnMut(ExperimentExplanation<'_>)) -> TargetResult<(), Self> {
        self.0.trace_experiment_info(r)
    }
    fn trace_experiment_start(&mut self) -> TargetResult<(), Self> {
        self.0.trace_experiment_start()
    }
    fn trace_experiment_stop(&mut self) -> TargetResult<(), Self> {
        self.0.trace_experiment_stop()
    }
    fn select_frame(&mut self, f: FrameRequest<U>, r: &mut dyn FnMut(FrameDescription)) -> TargetResult<(), Self> {
        self.0.select_frame(f, r)
    }
}
