//! Drives the real state machine behind an object-safe session trait.
use crate::conn::{CErr, CLog, Conn};
use crate::target::{fu, HU, TA, TErr};
use gdbstub::arch::Arch;
use crate::signals::named;
use gdbstub::common::Tid;
use gdbstub::conn::Connection;
use gdbstub::stub::state_machine::GdbStubStateMachine;
use gdbstub::stub::{BaseStopReason, DisconnectReason, GdbStub, GdbStubError, MultiThreadStopReason, SingleThreadStopReason};
use gdbstub::target::ext::base::reverse_exec::ReplayLogPosition;
use gdbstub::target::ext::breakpoints::WatchKind;
use gdbstub::target::ext::catch_syscalls::CatchSyscallPosition;
use gdbstub::target::Target;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SR {
    DoneStep,
    Exited(u8),
    Terminated(u8),
    Signal(u8),
    SigThread(usize, u8),
    SwBreak(usize),
    HwBreak(usize),
    /// tid, kind (2 write, 3 read, 4 access), addr
    Watch(usize, u8, u64),
    Replay(Option<usize>, bool),
    /// tid, number, entry?
    Catch(Option<usize>, u64, bool),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Stop {
    pub sr: SR,
    /// report it as a `SingleThreadStopReason`
    pub single: bool,
}

fn pos(b: bool) -> ReplayLogPosition {
    if b {
        ReplayLogPosition::Begin
    } else {
        ReplayLogPosition::End
    }
}
fn wkind(k: u8) -> WatchKind {
    match k {
        2 => WatchKind::Write,
        3 => WatchKind::Read,
        _ => WatchKind::ReadWrite,
    }
}
fn cpos(b: bool) -> CatchSyscallPosition {
    if b {
        CatchSyscallPosition::Entry
    } else {
        CatchSyscallPosition::Return
    }
}

impl Stop {
    fn gen<T: Copy, U: HU>(&self, t: impl Fn(usize) -> T) -> BaseStopReason<T, U> {
        match &self.sr {
            SR::DoneStep => BaseStopReason::DoneStep,
            SR::Exited(c) => BaseStopReason::Exited(*c),
            SR::Terminated(s) => BaseStopReason::Terminated(named(*s)),
            SR::Signal(s) => BaseStopReason::Signal(named(*s)),
            SR::SigThread(tid, s) => BaseStopReason::SignalWithThread { tid: t(*tid), signal: named(*s) },
            SR::SwBreak(tid) => BaseStopReason::SwBreak(t(*tid)),
            SR::HwBreak(tid) => BaseStopReason::HwBreak(t(*tid)),
            SR::Watch(tid, k, a) => BaseStopReason::Watch { tid: t(*tid), kind: wkind(*k), addr: fu(*a) },
            SR::Replay(tid, b) => BaseStopReason::ReplayLog { tid: tid.map(&t), pos: pos(*b) },
            SR::Catch(tid, n, e) => {
                BaseStopReason::CatchSyscall { tid: tid.map(&t), number: fu(*n), position: cpos(*e) }
            }
        }
    }
    pub fn multi<U: HU>(&self) -> MultiThreadStopReason<U> {
        self.gen(|t| Tid::new(t).unwrap())
    }
    pub fn single<U: HU>(&self) -> SingleThreadStopReason<U> {
        self.gen(|_| ())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Why {
    Exited(u8),
    Terminated(u8),
    Disconnect,
    Kill,
}
impl From<DisconnectReason> for Why {
    fn from(r: DisconnectReason) -> Why {
        match r {
            DisconnectReason::TargetExited(c) => Why::Exited(c),
            DisconnectReason::TargetTerminated(s) => Why::Terminated(s.0),
            DisconnectReason::Disconnect => Why::Disconnect,
            DisconnectReason::Kill => Why::Kill,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum EK {
    Target(u32),
    /// 'i' init, 'r' read, 'w' write
    Conn(u32, char),
    Other,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ErrInfo {
    pub kind: EK,
    pub text: String,
    /// accessor disagreements
    pub bad: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Idle,
    Running,
    CtrlC,
    Disc(Why),
    Err(ErrInfo),
    Panic(String),
}

pub fn err_info(e: GdbStubError<TErr, CErr>) -> ErrInfo {
    let text = format!("{}", e);
    let dbg = format!("{:?}", e);
    let (it, ic) = (e.is_target_error(), e.is_connection_error());
    let mut bad = None;
    if it && ic {
        bad = Some("error claims to be both a target and a connection error".into());
    }
    let kind = if it {
        match e.into_target_error() {
            Some(t) => EK::Target(t.0),
            None => {
                bad = Some(format!("is_target_error but into_target_error is None: {}", dbg));
                EK::Other
            }
        }
    } else if ic {
        match e.into_connection_error() {
            Some((c, k)) => EK::Conn(
                c.0,
                match format!("{:?}", k).as_str() {
                    "Init" => 'i',
                    "Read" => 'r',
                    "Write" => 'w',
                    _ => '?',
                },
            ),
            None => {
                bad = Some(format!("is_connection_error but into_connection_error is None: {}", dbg));
                EK::Other
            }
        }
    } else {
        // neither accessor may yield anything: consume one of them depending
        // on the message so that both get exercised
        if text.len() % 2 == 0 {
            if let Some(t) = e.into_target_error() {
                bad = Some(format!("into_target_error yields {:?} for a non-target error", t));
            }
        } else if let Some(c) = e.into_connection_error() {
            bad = Some(format!("into_connection_error yields {:?} for a non-connection error", c.0));
        }
        EK::Other
    };
    ErrInfo { kind, text, bad }
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("HARNESS_PANICS").is_some() {
            eprintln!("{}", info);
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}
pub fn take_panic() -> String {
    PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default()
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
}

pub trait Sess {
    fn st(&self) -> &St;
    fn feed(&mut self, b: u8);
    fn stop(&mut self, s: &Stop);
    fn int_handled(&mut self, s: Option<&Stop>);
    fn to_idle(&mut self);
}

pub struct Live<'a, T: Target<Error = TErr>, C: Connection<Error = CErr>>
where
    <T::Arch as Arch>::Usize: HU,
{
    m: Option<GdbStubStateMachine<'a, T, C>>,
    t: T,
    st: St,
}




impl<'a, T: Target<Error = TErr>, C: Connection<Error = CErr>> Live<'a, T, C>
where
    <T::Arch as Arch>::Usize: HU,
{
    pub fn start(stub: GdbStub<'a, T, C>, mut t: T) -> Live<'a, T, C> {
        let r = guard(|| stub.run_state_machine(&mut t));
        let mut l = Live { m: None, t, st: St::Idle };
        l.set(r);
        l
    }
    fn set(&mut self, r: Result<Result<GdbStubStateMachine<'a, T, C>, GdbStubError<TErr, CErr>>, String>) {
        match r {
            Err(p) => self.st = St::Panic(p),
            Ok(Err(e)) => {
                self.st = match guard(|| err_info(e)) {
                    Ok(i) => St::Err(i),
                    Err(p) => St::Panic(p),
                }
            }
            Ok(Ok(m)) => {
                self.st = match &m {
                    GdbStubStateMachine::Idle(_) => St::Idle,
                    GdbStubStateMachine::Running(_) => St::Running,
                    GdbStubStateMachine::CtrlCInterrupt(_) => St::CtrlC,
                    GdbStubStateMachine::Disconnected(d) => St::Disc(d.get_reason().into()),
                };
                self.m = Some(m);
            }
        }
    }
}

impl<'a, T: Target<Error = TErr>, C: Connection<Error = CErr>> Sess for Live<'a, T, C>
where
    <T::Arch as Arch>::Usize: HU,
{
    fn st(&self) -> &St {
        &self.st
    }
    fn feed(&mut self, b: u8) {
        let t = &mut self.t;
        let m = self.m.take().expect("dead session fed");
        let r = guard(|| match m {
            GdbStubStateMachine::Idle(m) => m.incoming_data(t, b),
            GdbStubStateMachine::Running(m) => m.incoming_data(t, b),
            m => Ok(m),
        });
        self.set(r)
    }
    fn stop(&mut self, s: &Stop) {
        let t = &mut self.t;
        let m = self.m.take().expect("dead session stopped");
        let r = guard(|| match m {
            GdbStubStateMachine::Running(m) => {
                if s.single {
                    m.report_stop(t, s.single())
                } else {
                    m.report_stop(t, s.multi())
                }
            }
            m => Ok(m),
        });
        self.set(r)
    }
    fn int_handled(&mut self, s: Option<&Stop>) {
        let t = &mut self.t;
        let m = self.m.take().expect("dead session interrupted");
        let r = guard(|| match m {
            GdbStubStateMachine::CtrlCInterrupt(m) => match s {
                None => m.interrupt_handled(t, None::<MultiThreadStopReason<_>>),
                Some(s) if s.single => m.interrupt_handled(t, Some(s.single())),
                Some(s) => m.interrupt_handled(t, Some(s.multi())),
            },
            m => Ok(m),
        });
        self.set(r)
    }
    fn to_idle(&mut self) {
        let m = self.m.take().expect("dead session");
        let r = guard(|| match m {
            GdbStubStateMachine::Disconnected(m) => Ok(m.return_to_idle()),
            m => Ok(m),
        });
        self.set(r)
    }
}

/// Packet buffer configuration.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct BufCfg {
    pub owned: bool,
    pub len: usize,
    /// content of a borrowed buffer before the session
    pub fill: u8,
    /// size of the supplied buffer when `len` is requested through
    /// `packet_buffer_size`
    pub explicit: bool,
}

/// how target and connection are handed to the library
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wrap {
    Plain,
    BoxTarget,
    MutTarget,
    BoxConn,
    MutConn,
    BoxBoth,
    BoxConnExt,
    MutConnExt,
    /// the mock reduced to required methods (not among `WRAPS`)
    Mini,
}
pub const WRAPS: [Wrap; 8] = [
    Wrap::Plain,
    Wrap::BoxTarget,
    Wrap::MutTarget,
    Wrap::BoxConn,
    Wrap::MutConn,
    Wrap::BoxBoth,
    Wrap::BoxConnExt,
    Wrap::MutConnExt,
];

pub struct Env {
    pub c: Rc<RefCell<CLog>>,
}

/// Build a session and hand it to `f`.
pub fn with_session<U: HU, R>(
    w: crate::target::Shared,
    c: Rc<RefCell<CLog>>,
    b: BufCfg,
    wrap: Wrap,
    f: &mut dyn FnMut(&mut dyn Sess) -> R,
) -> R {
    let mut store: Vec<u8> = if b.owned {
        vec![]
    } else {
        vec![b.fill; if b.explicit { b.len + 37 } else { b.len }]
    };
    let mock = crate::target::Mock::<U>::new(w);
    let conn = Conn(c);
    macro_rules! go {
        ($conn:expr, $t:expr) => {{
            let mut bl = GdbStub::builder($conn);
            if b.owned {
                bl = bl.packet_buffer_size(b.len);
            } else {
                bl = bl.with_packet_buffer(&mut store);
                if b.explicit {
                    bl = bl.packet_buffer_size(b.len);
                }
            }
            let stub = match bl.build() {
                Ok(s) => s,
                Err(e) => panic!("builder refused a valid configuration: {}", e),
            };
            let mut l = Live::start(stub, $t);
            f(&mut l)
        }};
    }


    match wrap {
        Wrap::Plain => go!(conn, mock),
        Wrap::Mini => go!(conn, crate::mini::Mini(mock)),
        #[cfg(feature = "alloc")]
        Wrap::BoxTarget => go!(conn, Box::new(mock) as Box<dyn Target<Arch = TA<U>, Error = TErr>>),
        Wrap::MutTarget => {
            let mut mock = mock;
            go!(conn, &mut mock as &mut dyn Target<Arch = TA<U>, Error = TErr>)
        }
        #[cfg(feature = "alloc")]
        Wrap::BoxConn => go!(Box::new(conn) as Box<dyn Connection<Error = CErr>>, mock),
        Wrap::MutConn => {
            let mut conn = conn;
            go!(&mut conn as &mut dyn Connection<Error = CErr>, mock)
        }
        #[cfg(feature = "alloc")]
        Wrap::BoxBoth => go!(
            Box::new(conn) as Box<dyn Connection<Error = CErr>>,
            Box::new(mock) as Box<dyn Target<Arch = TA<U>, Error = TErr>>
        ),
        #[cfg(feature = "alloc")]
        Wrap::BoxConnExt => go!(Box::new(conn) as Box<dyn gdbstub::conn::ConnectionExt<Error = CErr>>, mock),
        Wrap::MutConnExt => {
            let mut conn = conn;
            go!(&mut conn as &mut dyn gdbstub::conn::ConnectionExt<Error = CErr>, mock)
        }
        #[cfg(not(feature = "alloc"))]
        _ => go!(conn, mock),
    }
}

pub fn with_bits<R>(
    bits: u32,
    w: crate::target::Shared,
    c: Rc<RefCell<CLog>>,
    b: BufCfg,
    wrap: Wrap,
    f: &mut dyn FnMut(&mut dyn Sess) -> R,
) -> R {
    match bits {
        16 => with_session::<u16, R>(w, c, b, wrap, f),
        32 => with_session::<u32, R>(w, c, b, wrap, f),
        _ => with_session::<u64, R>(w, c, b, wrap, f),
    }
}
