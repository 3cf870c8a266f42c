//! Mock target: implements both threading models and every extension trait,
//! logs every call, answers from a scripted world.
use crate::util::mix;
use gdbstub::arch::lldb;
use gdbstub::arch::{Arch, BreakpointKind, RegId, Registers};
use gdbstub::common::{Pid, Signal, Tid};
use gdbstub::internal::{BeBytes, LeBytes};
use gdbstub::target::ext;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::reverse_exec::*;
use gdbstub::target::ext::base::single_register_access::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::breakpoints::*;
use gdbstub::target::ext::catch_syscalls::*;
use gdbstub::target::ext::extended_mode::*;
use gdbstub::target::ext::host_io::*;
use gdbstub::target::ext::lldb_register_info_override as lro;
use gdbstub::target::ext::tracepoints::*;
use gdbstub::target::{Target, TargetError, TargetResult};
use num_traits::{FromPrimitive, PrimInt, ToPrimitive, Unsigned};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::num::NonZeroUsize;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TErr(pub u32);
impl std::fmt::Display for TErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "terr{}", self.0)
    }
}

// ---------------------------------------------------------------- flags

macro_rules! flags {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(u8)]
        pub enum F { $($name),* }
        pub const ALL_FLAGS: &[F] = &[$(F::$name),*];
    };
}
flags!(
    MULTI, BP, SW, HW, WATCH, GUARD, MON, EXT, EASLR, EENV, ESHELL, EWD, EPID, SECOFF, TRACE, TSRC, XMLARCH, XMLOVR,
    LLDBARCH, LLDBOVR, MEMMAP, CATCH, HOSTIO, HOPEN, HCLOSE, HPREAD, HPWRITE, HFSTAT, HUNLINK, HREADLINK, HSETFS,
    EXECF, AUXV, LIBS, SREG, RESUME, STEP, RANGE, RSTEP, RCONT, EXTRA, NOACK, XUP, RSTUB, RLE, USEXML, USELLDB,
);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Hash)]
pub struct Cfg(pub u64);
impl Cfg {
    pub fn has(&self, f: F) -> bool {
        self.0 >> (f as u8) & 1 == 1
    }
    pub fn set(&mut self, f: F, v: bool) {
        if v {
            self.0 |= 1 << (f as u8)
        } else {
            self.0 &= !(1 << (f as u8))
        }
    }
    /// what the target is compared with leaves `on_start` to its default
    pub fn mini(&self) -> bool {
        self.0 >> 63 == 1
    }
    pub fn all() -> Cfg {
        Cfg((1u64 << ALL_FLAGS.len()) - 1)
    }
    pub fn names(&self) -> String {
        let off: Vec<String> = ALL_FLAGS.iter().filter(|f| self.has(**f)).map(|f| format!("{:?}", f)).collect();
        off.join(",")
    }
}

// ---------------------------------------------------------------- events

pub const T_NONE: i64 = -1;
/// "any live thread" placeholder in expectations
pub const T_ANY: i64 = -2;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Ev {
    pub op: &'static str,
    pub t: i64,
    pub n: Vec<u64>,
    pub b: Vec<Vec<u8>>,
}
impl Debug for Ev {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.op)?;
        if self.t >= 0 {
            write!(f, "@t{:x}", self.t)?;
        } else if self.t == T_ANY {
            write!(f, "@any")?;
        }
        for n in &self.n {
            write!(f, " {:#x}", n)?;
        }
        for b in &self.b {
            write!(f, " \"{}\"", crate::util::show(b))?;
        }
        Ok(())
    }
}
pub fn ev(op: &'static str) -> Ev {
    Ev { op, t: T_NONE, n: vec![], b: vec![] }
}
impl Ev {
    pub fn t(mut self, t: i64) -> Ev {
        self.t = t;
        self
    }
    pub fn n(mut self, n: u64) -> Ev {
        self.n.push(n);
        self
    }
    pub fn b(mut self, b: &[u8]) -> Ev {
        self.b.push(b.to_vec());
        self
    }
    pub fn opt(mut self, b: Option<&[u8]>) -> Ev {
        match b {
            Some(b) => {
                self.n.push(1);
                self.b.push(b.to_vec())
            }
            None => self.n.push(0),
        }
        self
    }
}

// ---------------------------------------------------------------- faults

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FailKind {
    NonFatal,
    Errno(u8),
    /// an io::Error carrying this OS error
    IoRaw(i32),
    /// an io::Error without OS error (index into kinds)
    IoKind(u8),
    Fatal(u32),
}
impl FailKind {
    pub fn te(self) -> TargetError<TErr> {
        match self {
            FailKind::NonFatal => TargetError::NonFatal,
            FailKind::Errno(e) => TargetError::Errno(e),
            FailKind::IoRaw(_) | FailKind::IoKind(_) if crate::util::no_std_errors() => TargetError::NonFatal,
            #[cfg(feature = "std")]
            FailKind::IoRaw(e) => TargetError::Io(std::io::Error::from_raw_os_error(e)),
            #[cfg(feature = "std")]
            FailKind::IoKind(_) => TargetError::from(std::io::Error::new(std::io::ErrorKind::Other, "x")),
            #[cfg(not(feature = "std"))]
            FailKind::IoRaw(_) | FailKind::IoKind(_) => TargetError::NonFatal,
            FailKind::Fatal(c) => TargetError::Fatal(TErr(c)),
        }
    }
    /// documented error code reported to the client
    pub fn code(self) -> Option<u8> {
        match self {
            FailKind::NonFatal | FailKind::IoKind(_) => Some(121),
            FailKind::Errno(e) => Some(e),
            FailKind::IoRaw(e) => Some(if crate::util::no_std_errors() { 121 } else { e as u8 }),
            FailKind::Fatal(_) => None,
        }
    }
}

// ---------------------------------------------------------------- world

#[derive(Clone, Debug)]
pub enum MonOp {
    Raw(Vec<u8>),
    Fmt(String),
    Ln(String),
    Flush,
}

#[derive(Clone, Debug)]
pub enum LReg {
    None,
    Done,
    Reg(LRegSpec),
}

#[derive(Clone, Debug)]
pub struct LRegSpec {
    pub name: String,
    pub alt: Option<String>,
    pub bitsize: usize,
    pub offset: usize,
    pub enc: usize,
    pub fmt: usize,
    pub set: String,
    pub gcc: Option<usize>,
    pub dwarf: Option<usize>,
    pub generic: Option<usize>,
    pub cont: Option<Vec<usize>>,
    pub inv: Option<Vec<usize>>,
}
pub const ENC: [&str; 4] = ["uint", "sint", "ieee754", "vector"];
pub const FMT: [&str; 12] = [
    "binary", "decimal", "hex", "float", "vector-sint8", "vector-uint8", "vector-sint16", "vector-uint16",
    "vector-sint32", "vector-uint32", "vector-float32", "vector-uint128",
];
pub const GENERIC: [&str; 13] =
    ["pc", "sp", "fp", "ra", "flags", "arg1", "arg2", "arg3", "arg4", "arg5", "arg6", "arg7", "arg8"];

impl LRegSpec {
    pub fn with<R>(&self, f: impl FnOnce(lldb::Register<'_>) -> R) -> R {
        use lldb::*;
        f(Register {
            name: &self.name,
            alt_name: self.alt.as_deref(),
            bitsize: self.bitsize,
            offset: self.offset,
            encoding: match self.enc {
                0 => Encoding::Uint,
                1 => Encoding::Sint,
                2 => Encoding::IEEE754,
                _ => Encoding::Vector,
            },
            format: match self.fmt {
                0 => Format::Binary,
                1 => Format::Decimal,
                2 => Format::Hex,
                3 => Format::Float,
                4 => Format::VectorSInt8,
                5 => Format::VectorUInt8,
                6 => Format::VectorSInt16,
                7 => Format::VectorUInt16,
                8 => Format::VectorSInt32,
                9 => Format::VectorUInt32,
                10 => Format::VectorFloat32,
                _ => Format::VectorUInt128,
            },
            set: &self.set,
            gcc: self.gcc,
            dwarf: self.dwarf,
            generic: self.generic.map(|g| match g {
                0 => Generic::Pc,
                1 => Generic::Sp,
                2 => Generic::Fp,
                3 => Generic::Ra,
                4 => Generic::Flags,
                5 => Generic::Arg1,
                6 => Generic::Arg2,
                7 => Generic::Arg3,
                8 => Generic::Arg4,
                9 => Generic::Arg5,
                10 => Generic::Arg6,
                11 => Generic::Arg7,
                _ => Generic::Arg8,
            }),
            container_regs: self.cont.as_deref(),
            invalidate_regs: self.inv.as_deref(),
        })
    }
}

#[derive(Clone, Debug)]
pub enum TAct {
    Regs(Vec<u8>),
    Mem(Option<u64>, u64, u64),
    Expr(Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct TSrc {
    pub kind: usize,
    pub start: u32,
    pub slen: u32,
    pub bytes: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct TPoint {
    pub num: usize,
    pub addr: u64,
    pub enabled: bool,
    pub step: u64,
    pub pass: u64,
    pub acts: Vec<TAct>,
    pub srcs: Vec<TSrc>,
    pub src_first: bool,
}

#[derive(Clone, Debug)]
pub enum TStatus {
    Running,
    NotRunning,
    NotRun,
    Stop(Option<Vec<u8>>),
    Full,
    Disconnected,
    PassCount(usize),
    Error(Vec<u8>, usize),
    Unknown,
}
#[derive(Clone, Debug)]
pub enum TInfo {
    Frames(usize),
    Created(usize),
    Size(usize),
    Free(usize),
    Circular(bool),
    Disc(bool),
    Other(String),
}

#[derive(Clone, Debug, Default)]
pub struct Mem {
    pub seed: u64,
    pub style: u8,
    /// [lo, hi] inclusive unreadable range
    pub hole: Option<(u64, u64)>,
    /// what to answer when the first byte is unreadable (None: Ok(0))
    pub hole_err: Option<FailKind>,
    /// at most this many bytes per call
    pub cap: Option<usize>,
}
impl Mem {
    pub fn byte(&self, addr: u64, tid: i64) -> u8 {
        let t = tid as u64;
        match self.style {
            0 => mix(mix(self.seed, addr), t) as u8,
            1 => mix(mix(self.seed, addr / 37), t) as u8,
            2 => mix(mix(self.seed, addr / 5), t) as u8 & 0x3,
            3 => 0,
            _ => b"#$}*"[(mix(mix(self.seed, addr / 3), t) & 3) as usize],
        }
    }
    pub fn readable(&self, addr: u64) -> bool {
        !matches!(self.hole, Some((lo, hi)) if addr >= lo && addr <= hi)
    }
}

/// no session of this harness legitimately comes close
pub const MAX_CALLS: u64 = 300_000;

pub struct World {
    pub cfg: Cfg,
    pub log: Vec<Ev>,
    pub fails: Vec<(&'static str, usize, FailKind)>,
    pub threads: Vec<usize>,
    pub pid: usize,
    pub mem: Mem,
    pub seed: u64,
    pub reg_len: usize,
    pub reg_style: u8,
    /// explicit reply for single-register reads
    pub reg_val: Vec<u8>,
    pub reg_ret: Option<usize>,
    pub objs: [Vec<u8>; 5],
    /// features object annex served by the override
    pub bp_ok: bool,
    pub hfd: u32,
    pub hdata: Vec<u8>,
    pub hret: u64,
    pub hstat: [u64; 13],
    pub attached: bool,
    pub kill_yes: bool,
    pub offsets: (bool, u64, u64, Option<u64>),
    pub extra: Vec<u8>,
    pub mon: Vec<MonOp>,
    pub lregs: HashMap<usize, LReg>,
    pub lreg_default_done: bool,
    pub tps: Vec<TPoint>,
    pub tstatus: Option<TStatus>,
    /// report a second status, which must not show
    pub tstatus_twice: bool,
    pub tinfo: Vec<TInfo>,
    pub tpstat: (u64, u64),
    pub tbuf: Vec<u8>,
    pub tbuf_chunks: usize,
    pub frame: Vec<(bool, u64)>,
    pub calls: u64,
    /// non-behavioural queries made (thread list, current pid)
    pub queries: u64,
}

impl World {
    pub fn new(cfg: Cfg, seed: u64) -> World {
        World {
            cfg,
            log: vec![],
            fails: vec![],
            threads: vec![1],
            pid: 1,
            mem: Mem { seed, ..Default::default() },
            seed,
            reg_len: 24,
            reg_style: 0,
            reg_val: vec![],
            reg_ret: None,
            objs: Default::default(),
            bp_ok: true,
            hfd: 0,
            hdata: vec![],
            hret: 0,
            hstat: [0; 13],
            attached: true,
            kill_yes: true,
            offsets: (true, 0, 0, None),
            extra: vec![],
            mon: vec![],
            lregs: HashMap::new(),
            lreg_default_done: true,
            tps: vec![],
            tstatus: None,
            tstatus_twice: false,
            tinfo: vec![],
            tpstat: (0, 0),
            tbuf: vec![],
            tbuf_chunks: 1,
            frame: vec![],
            calls: 0,
            queries: 0,
        }
    }
    pub fn regs(&self, tid: i64) -> Vec<Option<u8>> {
        let s = mix(self.seed ^ 0x5e65, tid as u64);
        (0..self.reg_len)
            .map(|i| {
                let h = mix(s, i as u64);
                match self.reg_style {
                    0 => Some(h as u8),
                    1 => {
                        if mix(s, (i / 4) as u64) & 1 == 0 {
                            None
                        } else {
                            Some(h as u8)
                        }
                    }
                    2 => Some(mix(s, (i / 9) as u64) as u8),
                    3 => Some(0),
                    _ => {
                        if i % 7 == 3 {
                            None
                        } else {
                            Some(mix(s, (i / 3) as u64) as u8)
                        }
                    }
                }
            })
            .collect()
    }
    fn fail(&mut self, op: &'static str) -> Option<FailKind> {
        self.calls += 1;
        if self.calls > MAX_CALLS {
            self.calls = 0;
            panic!("runaway: more than {} target calls in one session", MAX_CALLS);
        }
        for i in 0..self.fails.len() {
            if self.fails[i].0 == op {
                if self.fails[i].1 == 0 {
                    let k = self.fails[i].2;
                    self.fails.remove(i);
                    return Some(k);
                }
                self.fails[i].1 -= 1;
                return None;
            }
        }
        None
    }
    fn chk(&mut self, op: &'static str) -> Result<(), TargetError<TErr>> {
        match self.fail(op) {
            Some(k) => Err(k.te()),
            None => Ok(()),
        }
    }
    fn chk_fatal(&mut self, op: &'static str) -> Result<(), TErr> {
        match self.fail(op) {
            Some(FailKind::Fatal(c)) => Err(TErr(c)),
            _ => Ok(()),
        }
    }
    fn chk_hio(&mut self, op: &'static str) -> Result<(), HostIoError<TErr>> {
        match self.fail(op) {
            None => Ok(()),
            Some(FailKind::Fatal(c)) => Err(HostIoError::Fatal(TErr(c))),
            Some(FailKind::Errno(i)) => Err(HostIoError::Errno(hio_errno(i as usize))),
            #[cfg(feature = "std")]
            Some(FailKind::IoKind(i)) => Err(HostIoError::from(std::io::Error::from(IOKINDS[i as usize % IOKINDS.len()].0))),
            Some(_) => Err(HostIoError::Errno(HostIoErrno::EUNKNOWN)),
        }
    }
}

#[cfg(feature = "std")]
pub const IOKINDS: [(std::io::ErrorKind, u32); 8] = [
    (std::io::ErrorKind::PermissionDenied, 1),
    (std::io::ErrorKind::NotFound, 2),
    (std::io::ErrorKind::Interrupted, 4),
    (std::io::ErrorKind::AlreadyExists, 17),
    (std::io::ErrorKind::InvalidInput, 22),
    (std::io::ErrorKind::TimedOut, 9999),
    (std::io::ErrorKind::UnexpectedEof, 9999),
    (std::io::ErrorKind::Other, 9999),
];

pub const HERRNO: [u32; 20] =
    [1, 2, 4, 9, 13, 14, 16, 17, 19, 20, 21, 22, 23, 24, 27, 28, 29, 30, 91, 9999];
fn hio_errno(i: usize) -> HostIoErrno {
    use HostIoErrno::*;
    match i % 20 {
        0 => EPERM,
        1 => ENOENT,
        2 => EINTR,
        3 => EBADF,
        4 => EACCES,
        5 => EFAULT,
        6 => EBUSY,
        7 => EEXIST,
        8 => ENODEV,
        9 => ENOTDIR,
        10 => EISDIR,
        11 => EINVAL,
        12 => ENFILE,
        13 => EMFILE,
        14 => EFBIG,
        15 => ENOSPC,
        16 => ESPIPE,
        17 => EROFS,
        18 => ENAMETOOLONG,
        _ => EUNKNOWN,
    }
}

pub type Shared = Rc<RefCell<World>>;

// ---------------------------------------------------------------- arch

pub trait HU:
    Debug + FromPrimitive + ToPrimitive + PrimInt + Unsigned + BeBytes + LeBytes + Default + Send + 'static
{
    const BITS: u32;
}
impl HU for u16 {
    const BITS: u32 = 16;
}
impl HU for u32 {
    const BITS: u32 = 32;
}
impl HU for u64 {
    const BITS: u32 = 64;
}
pub fn u<U: HU>(v: U) -> u64 {
    v.to_u64().unwrap()
}
pub fn fu<U: HU>(v: u64) -> U {
    U::from_u64(v).unwrap()
}

#[derive(Default, Debug, Clone, PartialEq)]
pub struct HRegs<U>(pub Vec<Option<u8>>, PhantomData<U>);
pub const REGS_MAX: usize = 700;
impl<U: HU> Registers for HRegs<U> {
    type ProgramCounter = U;
    fn pc(&self) -> U {
        U::zero()
    }
    fn gdb_serialize(&self, mut write_byte: impl FnMut(Option<u8>)) {
        for b in &self.0 {
            write_byte(*b)
        }
    }
    fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> {
        if bytes.len() > REGS_MAX || bytes.len() % 2 == 1 {
            return Err(());
        }
        self.0 = bytes.iter().map(|b| Some(*b)).collect();
        Ok(())
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct HRegId(pub usize);
/// register numbers 0..64 exist; size None = variable
pub fn reg_size(id: usize) -> Option<Option<usize>> {
    match id {
        0..=31 => Some(Some([1, 2, 4, 8, 10, 16][id % 6])),
        32..=47 => None,
        48..=63 => Some(None),
        0x1000..=0x1010 => Some(Some(4)),
        usize::MAX => Some(Some(4)),
        _ => None,
    }
}
impl RegId for HRegId {
    fn from_raw_id(id: usize) -> Option<(Self, Option<NonZeroUsize>)> {
        let s = reg_size(id)?;
        Some((HRegId(id), s.and_then(NonZeroUsize::new)))
    }
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct HKind(pub usize);
pub fn kind_ok(k: u64) -> bool {
    k < 0x1000 && k != 0x77
}
impl BreakpointKind for HKind {
    fn from_usize(kind: usize) -> Option<Self> {
        if kind_ok(kind as u64) {
            Some(HKind(kind))
        } else {
            None
        }
    }
}

thread_local! {
    pub static ARCH_XML: Cell<Option<&'static str>> = const { Cell::new(None) };
    pub static ARCH_LLDB: RefCell<Option<Shared>> = const { RefCell::new(None) };
}

/// A fixed pool of statically allocated descriptions (leaked once per thread).
pub fn leak_str(s: String) -> &'static str {
    thread_local!(static POOL: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new()));
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(v) = p.get(&s) {
            return *v;
        }
        let v: &'static str = Box::leak(s.clone().into_boxed_str());
        p.insert(s, v);
        v
    })
}

pub struct TA<U>(PhantomData<U>);
impl<U: HU> Arch for TA<U> {
    type Usize = U;
    type Registers = HRegs<U>;
    type BreakpointKind = HKind;
    type RegId = HRegId;
    fn target_description_xml() -> Option<&'static str> {
        ARCH_XML.with(|x| x.get())
    }
    fn lldb_register_info(reg_id: usize) -> Option<lldb::RegisterInfo<'static>> {
        let w = ARCH_LLDB.with(|x| x.borrow().clone())?;
        let w = w.borrow();
        if !w.cfg.has(F::LLDBARCH) {
            return None;
        }
        match w.lregs.get(&reg_id) {
            Some(LReg::Reg(r)) => {
                let r: &'static LRegSpec = leak_reg(r);
                Some(r.with(|x| {
                    lldb::RegisterInfo::Register(lldb::Register {
                        name: &r.name,
                        alt_name: r.alt.as_deref(),
                        set: &r.set,
                        container_regs: r.cont.as_deref(),
                        invalidate_regs: r.inv.as_deref(),
                        bitsize: x.bitsize,
                        offset: x.offset,
                        encoding: x.encoding,
                        format: x.format,
                        gcc: x.gcc,
                        dwarf: x.dwarf,
                        generic: x.generic,
                    })
                }))
            }
            Some(LReg::None) if reg_id != usize::MAX => None,
            _ => Some(lldb::RegisterInfo::Done),
        }
    }
}
fn leak_reg(r: &LRegSpec) -> &'static LRegSpec {
    Box::leak(Box::new(r.clone()))
}

// ---------------------------------------------------------------- target

pub struct Mock<U: HU> {
    pub w: Shared,
    est: TracepointEnumerateState<U>,
}

impl<U: HU> Mock<U> {
    pub fn new(w: Shared) -> Mock<U> {
        Mock { w, est: Default::default() }
    }
    pub fn has(&self, f: F) -> bool {
        self.w.borrow().cfg.has(f)
    }
    fn rec(&self, e: Ev) {
        self.w.borrow_mut().log.push(e)
    }
    fn chk(&self, op: &'static str) -> Result<(), TargetError<TErr>> {
        self.w.borrow_mut().chk(op)
    }
    fn chkf(&self, op: &'static str) -> Result<(), TErr> {
        self.w.borrow_mut().chk_fatal(op)
    }
    fn chkh(&self, op: &'static str) -> Result<(), HostIoError<TErr>> {
        self.w.borrow_mut().chk_hio(op)
    }
    fn read_mem(&self, a: u64, data: &mut [u8], t: i64) -> Result<usize, TargetError<TErr>> {
        let mut w = self.w.borrow_mut();
        let max: u64 = if U::BITS == 64 { u64::MAX } else { (1u64 << U::BITS) - 1 };
        let mut n = 0usize;
        let fail = w.fail("read_addrs");
        if fail.is_none() {
            let cap = w.mem.cap.unwrap_or(usize::MAX).min(data.len());
            while n < cap {
                let ad = match a.checked_add(n as u64) {
                    Some(x) if x <= max => x,
                    _ => break,
                };
                if !w.mem.readable(ad) {
                    break;
                }
                data[n] = w.mem.byte(ad, t);
                n += 1;
            }
        }
        let first_bad = data.len() > 0 && !w.mem.readable(a);
        let e = ev("read_addrs").t(t).n(a).n(data.len() as u64).n(n as u64);
        w.log.push(e);
        if let Some(k) = fail {
            return Err(k.te());
        }
        if first_bad {
            if let Some(k) = w.mem.hole_err {
                return Err(k.te());
            }
        }
        Ok(n)
    }
    fn write_mem(&self, a: u64, data: &[u8], t: i64) -> Result<(), TargetError<TErr>> {
        self.rec(ev("write_addrs").t(t).n(a).b(data));
        self.chk("write_addrs")
    }
    fn rregs(&self, regs: &mut HRegs<U>, t: i64) -> Result<(), TargetError<TErr>> {
        self.rec(ev("read_regs").t(t));
        self.chk("read_regs")?;
        regs.0 = self.w.borrow().regs(t);
        Ok(())
    }
    fn wregs(&self, regs: &HRegs<U>, t: i64) -> Result<(), TargetError<TErr>> {
        let b: Vec<u8> = regs.0.iter().map(|b| b.unwrap_or(0xEE)).collect();
        self.rec(ev("write_regs").t(t).b(&b));
        self.chk("write_regs")
    }
    fn rreg(&self, t: i64, id: HRegId, buf: &mut [u8]) -> Result<usize, TargetError<TErr>> {
        self.rec(ev("read_reg").t(t).n(id.0 as u64));
        self.chk("read_reg")?;
        let w = self.w.borrow();
        let n = w.reg_val.len().min(buf.len());
        buf[..n].copy_from_slice(&w.reg_val[..n]);
        Ok(w.reg_ret.unwrap_or(n))
    }
    fn wreg(&self, t: i64, id: HRegId, val: &[u8]) -> Result<(), TargetError<TErr>> {
        self.rec(ev("write_reg").t(t).n(id.0 as u64).b(val));
        self.chk("write_reg")
    }
    fn xfer(
        &self,
        op: &'static str,
        which: usize,
        e: Ev,
        offset: u64,
        length: usize,
        buf: &mut [u8],
    ) -> Result<usize, TargetError<TErr>> {
        let mut w = self.w.borrow_mut();
        let e = e.n(offset).n(length as u64);
        let r = w.fail(op);
        let obj = &w.objs[which];
        let n;
        if r.is_none() {
            let start = (offset.min(obj.len() as u64)) as usize;
            let end = start.saturating_add(length).min(obj.len());
            n = (end - start).min(buf.len());
            buf[..n].copy_from_slice(&obj[start..start + n]);
            let e = e.b(&obj[start..start + n]);
            w.log.push(e);
        } else {
            n = 0;
            w.log.push(e.b(b""));
        }
        match r {
            Some(k) => Err(k.te()),
            None => Ok(n),
        }
    }
    fn bp(&self, op: &'static str, e: Ev) -> Result<bool, TargetError<TErr>> {
        self.rec(e);
        self.chk(op)?;
        Ok(self.w.borrow().bp_ok)
    }
}

macro_rules! opt {
    ($self:ident, $f:ident) => {
        if $self.has(F::$f) {
            Some($self)
        } else {
            None
        }
    };
}

impl<U: HU> Target for Mock<U> {
    type Arch = TA<U>;
    type Error = TErr;

    fn base_ops(&mut self) -> BaseOps<'_, Self::Arch, Self::Error> {
        if self.has(F::MULTI) {
            BaseOps::MultiThread(self)
        } else {
            BaseOps::SingleThread(self)
        }
    }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool {
        self.has(F::GUARD)
    }
    fn use_no_ack_mode(&self) -> bool {
        self.has(F::NOACK)
    }
    fn use_x_upcase_packet(&self) -> bool {
        self.has(F::XUP)
    }
    fn use_resume_stub(&self) -> bool {
        self.has(F::RSTUB)
    }
    fn use_rle(&self) -> bool {
        self.has(F::RLE)
    }
    fn use_target_description_xml(&self) -> bool {
        self.has(F::USEXML)
    }
    fn use_lldb_register_info(&self) -> bool {
        self.has(F::USELLDB)
    }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> {
        opt!(self, BP)
    }
    fn support_monitor_cmd(&mut self) -> Option<ext::monitor_cmd::MonitorCmdOps<'_, Self>> {
        opt!(self, MON)
    }
    fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> {
        opt!(self, EXT)
    }
    fn support_section_offsets(&mut self) -> Option<ext::section_offsets::SectionOffsetsOps<'_, Self>> {
        opt!(self, SECOFF)
    }
    fn support_tracepoints(&mut self) -> Option<TracepointsOps<'_, Self>> {
        opt!(self, TRACE)
    }
    fn support_target_description_xml_override(
        &mut self,
    ) -> Option<ext::target_description_xml_override::TargetDescriptionXmlOverrideOps<'_, Self>> {
        opt!(self, XMLOVR)
    }
    fn support_lldb_register_info_override(&mut self) -> Option<lro::LldbRegisterInfoOverrideOps<'_, Self>> {
        opt!(self, LLDBOVR)
    }
    fn support_memory_map(&mut self) -> Option<ext::memory_map::MemoryMapOps<'_, Self>> {
        opt!(self, MEMMAP)
    }
    fn support_catch_syscalls(&mut self) -> Option<CatchSyscallsOps<'_, Self>> {
        opt!(self, CATCH)
    }
    fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> {
        opt!(self, HOSTIO)
    }
    fn support_exec_file(&mut self) -> Option<ext::exec_file::ExecFileOps<'_, Self>> {
        opt!(self, EXECF)
    }
    fn support_auxv(&mut self) -> Option<ext::auxv::AuxvOps<'_, Self>> {
        opt!(self, AUXV)
    }
    fn support_libraries_svr4(&mut self) -> Option<ext::libraries::LibrariesSvr4Ops<'_, Self>> {
        opt!(self, LIBS)
    }
}

fn tt(t: Tid) -> i64 {
    t.get() as i64
}
fn sg(s: Option<Signal>) -> u64 {
    match s {
        None => 0x100,
        Some(s) => s.0 as u64,
    }
}

impl<U: HU> SingleThreadBase for Mock<U> {
    fn read_registers(&mut self, regs: &mut HRegs<U>) -> TargetResult<(), Self> {
        self.rregs(regs, 0)
    }
    fn write_registers(&mut self, regs: &HRegs<U>) -> TargetResult<(), Self> {
        self.wregs(regs, 0)
    }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, (), Self>> {
        opt!(self, SREG)
    }
    fn read_addrs(&mut self, a: U, data: &mut [u8]) -> TargetResult<usize, Self> {
        self.read_mem(u(a), data, 0)
    }
    fn write_addrs(&mut self, a: U, data: &[u8]) -> TargetResult<(), Self> {
        self.write_mem(u(a), data, 0)
    }
    fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> {
        opt!(self, RESUME)
    }
}

impl<U: HU> MultiThreadBase for Mock<U> {
    fn read_registers(&mut self, regs: &mut HRegs<U>, tid: Tid) -> TargetResult<(), Self> {
        self.rregs(regs, tt(tid))
    }
    fn write_registers(&mut self, regs: &HRegs<U>, tid: Tid) -> TargetResult<(), Self> {
        self.wregs(regs, tt(tid))
    }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, Tid, Self>> {
        opt!(self, SREG)
    }
    fn read_addrs(&mut self, a: U, data: &mut [u8], tid: Tid) -> TargetResult<usize, Self> {
        self.read_mem(u(a), data, tt(tid))
    }
    fn write_addrs(&mut self, a: U, data: &[u8], tid: Tid) -> TargetResult<(), Self> {
        self.write_mem(u(a), data, tt(tid))
    }
    fn list_active_threads(&mut self, cb: &mut dyn FnMut(Tid)) -> Result<(), TErr> {
        let th = {
            let mut w = self.w.borrow_mut();
            w.queries += 1;
            w.threads.clone()
        };
        let err = self.chkf("list_threads");
        for (i, t) in th.iter().enumerate() {
            if err.is_err() && i >= th.len() / 2 {
                break;
            }
            cb(Tid::new(*t).unwrap())
        }
        err
    }
    fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> {
        opt!(self, RESUME)
    }
    fn support_thread_extra_info(&mut self) -> Option<ext::thread_extra_info::ThreadExtraInfoOps<'_, Self>> {
        opt!(self, EXTRA)
    }
}

impl<U: HU> SingleRegisterAccess<()> for Mock<U> {
    fn read_register(&mut self, _: (), id: HRegId, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.rreg(0, id, buf)
    }
    fn write_register(&mut self, _: (), id: HRegId, val: &[u8]) -> TargetResult<(), Self> {
        self.wreg(0, id, val)
    }
}
impl<U: HU> SingleRegisterAccess<Tid> for Mock<U> {
    fn read_register(&mut self, t: Tid, id: HRegId, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.rreg(tt(t), id, buf)
    }
    fn write_register(&mut self, t: Tid, id: HRegId, val: &[u8]) -> TargetResult<(), Self> {
        self.wreg(tt(t), id, val)
    }
}

impl<U: HU> SingleThreadResume for Mock<U> {
    fn resume(&mut self, signal: Option<Signal>) -> Result<(), TErr> {
        self.rec(ev("st_resume").n(sg(signal)));
        self.chkf("st_resume")
    }
    fn support_single_step(&mut self) -> Option<SingleThreadSingleStepOps<'_, Self>> {
        opt!(self, STEP)
    }
    fn support_range_step(&mut self) -> Option<SingleThreadRangeSteppingOps<'_, Self>> {
        opt!(self, RANGE)
    }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, (), Self>> {
        opt!(self, RSTEP)
    }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, (), Self>> {
        opt!(self, RCONT)
    }
}
impl<U: HU> SingleThreadSingleStep for Mock<U> {
    fn step(&mut self, signal: Option<Signal>) -> Result<(), TErr> {
        self.rec(ev("st_step").n(sg(signal)));
        self.chkf("st_step")
    }
}
impl<U: HU> SingleThreadRangeStepping for Mock<U> {
    fn resume_range_step(&mut self, start: U, end: U) -> Result<(), TErr> {
        self.rec(ev("st_range").n(u(start)).n(u(end)));
        self.chkf("st_range")
    }
}
impl<U: HU> MultiThreadResume for Mock<U> {
    fn resume(&mut self) -> Result<(), TErr> {
        self.rec(ev("mt_resume"));
        self.chkf("mt_resume")
    }
    fn clear_resume_actions(&mut self) -> Result<(), TErr> {
        self.rec(ev("mt_clear"));
        self.chkf("mt_clear")
    }
    fn set_resume_action_continue(&mut self, tid: Tid, signal: Option<Signal>) -> Result<(), TErr> {
        self.rec(ev("mt_cont").t(tt(tid)).n(sg(signal)));
        self.chkf("mt_cont")
    }
    fn support_single_step(&mut self) -> Option<MultiThreadSingleStepOps<'_, Self>> {
        opt!(self, STEP)
    }
    fn support_range_step(&mut self) -> Option<MultiThreadRangeSteppingOps<'_, Self>> {
        opt!(self, RANGE)
    }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, Tid, Self>> {
        opt!(self, RSTEP)
    }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, Tid, Self>> {
        opt!(self, RCONT)
    }
}
impl<U: HU> MultiThreadSingleStep for Mock<U> {
    fn set_resume_action_step(&mut self, tid: Tid, signal: Option<Signal>) -> Result<(), TErr> {
        self.rec(ev("mt_step").t(tt(tid)).n(sg(signal)));
        self.chkf("mt_step")
    }
}
impl<U: HU> MultiThreadRangeStepping for Mock<U> {
    fn set_resume_action_range_step(&mut self, tid: Tid, start: U, end: U) -> Result<(), TErr> {
        self.rec(ev("mt_range").t(tt(tid)).n(u(start)).n(u(end)));
        self.chkf("mt_range")
    }
}
impl<U: HU> ReverseCont<()> for Mock<U> {
    fn reverse_cont(&mut self) -> Result<(), TErr> {
        self.rec(ev("rev_cont"));
        self.chkf("rev_cont")
    }
}
impl<U: HU> ReverseCont<Tid> for Mock<U> {
    fn reverse_cont(&mut self) -> Result<(), TErr> {
        self.rec(ev("rev_cont"));
        self.chkf("rev_cont")
    }
}
impl<U: HU> ReverseStep<()> for Mock<U> {
    fn reverse_step(&mut self, _: ()) -> Result<(), TErr> {
        self.rec(ev("rev_step").t(0));
        self.chkf("rev_step")
    }
}
impl<U: HU> ReverseStep<Tid> for Mock<U> {
    fn reverse_step(&mut self, t: Tid) -> Result<(), TErr> {
        self.rec(ev("rev_step").t(tt(t)));
        self.chkf("rev_step")
    }
}

impl<U: HU> Breakpoints for Mock<U> {
    fn support_sw_breakpoint(&mut self) -> Option<SwBreakpointOps<'_, Self>> {
        opt!(self, SW)
    }
    fn support_hw_breakpoint(&mut self) -> Option<HwBreakpointOps<'_, Self>> {
        opt!(self, HW)
    }
    fn support_hw_watchpoint(&mut self) -> Option<HwWatchpointOps<'_, Self>> {
        opt!(self, WATCH)
    }
}
impl<U: HU> SwBreakpoint for Mock<U> {
    fn add_sw_breakpoint(&mut self, a: U, k: HKind) -> TargetResult<bool, Self> {
        self.bp("bp", ev("add_sw").n(u(a)).n(k.0 as u64))
    }
    fn remove_sw_breakpoint(&mut self, a: U, k: HKind) -> TargetResult<bool, Self> {
        self.bp("bp", ev("rm_sw").n(u(a)).n(k.0 as u64))
    }
}
impl<U: HU> HwBreakpoint for Mock<U> {
    fn add_hw_breakpoint(&mut self, a: U, k: HKind) -> TargetResult<bool, Self> {
        self.bp("bp", ev("add_hw").n(u(a)).n(k.0 as u64))
    }
    fn remove_hw_breakpoint(&mut self, a: U, k: HKind) -> TargetResult<bool, Self> {
        self.bp("bp", ev("rm_hw").n(u(a)).n(k.0 as u64))
    }
}
fn wk(k: WatchKind) -> u64 {
    match k {
        WatchKind::Write => 2,
        WatchKind::Read => 3,
        WatchKind::ReadWrite => 4,
    }
}
impl<U: HU> HwWatchpoint for Mock<U> {
    fn add_hw_watchpoint(&mut self, a: U, l: U, k: WatchKind) -> TargetResult<bool, Self> {
        self.bp("bp", ev("add_watch").n(u(a)).n(u(l)).n(wk(k)))
    }
    fn remove_hw_watchpoint(&mut self, a: U, l: U, k: WatchKind) -> TargetResult<bool, Self> {
        self.bp("bp", ev("rm_watch").n(u(a)).n(u(l)).n(wk(k)))
    }
}

impl<U: HU> CatchSyscalls for Mock<U> {
    fn enable_catch_syscalls(&mut self, f: Option<SyscallNumbers<'_, U>>) -> TargetResult<(), Self> {
        let e = match f {
            None => ev("catch_all"),
            Some(it) => {
                let mut e = ev("catch");
                for x in it {
                    e = e.n(u(x));
                }
                e
            }
        };
        self.rec(e);
        self.chk("catch")
    }
    fn disable_catch_syscalls(&mut self) -> TargetResult<(), Self> {
        self.rec(ev("catch_off"));
        self.chk("catch")
    }
}

impl<U: HU> ExtendedMode for Mock<U> {
    fn run(&mut self, filename: Option<&[u8]>, args: Args<'_, '_>) -> TargetResult<Pid, Self> {
        let mut e = ev("run").opt(filename);
        for a in args {
            e = e.b(a);
        }
        self.rec(e);
        self.chk("run")?;
        let p = self.w.borrow().pid;
        Ok(Pid::new(p).unwrap())
    }
    fn attach(&mut self, pid: Pid) -> TargetResult<(), Self> {
        self.rec(ev("attach").n(pid.get() as u64));
        self.chk("attach")
    }
    fn query_if_attached(&mut self, pid: Pid) -> TargetResult<AttachKind, Self> {
        self.rec(ev("qattached").n(pid.get() as u64));
        self.chk("qattached")?;
        Ok(if self.w.borrow().attached { AttachKind::Attach } else { AttachKind::Run })
    }
    fn kill(&mut self, pid: Option<Pid>) -> TargetResult<ShouldTerminate, Self> {
        let mut e = ev("kill");
        if let Some(p) = pid {
            e = e.n(p.get() as u64);
        }
        self.rec(e);
        self.chk("kill")?;
        Ok(if self.w.borrow().kill_yes { ShouldTerminate::Yes } else { ShouldTerminate::No })
    }
    fn restart(&mut self) -> Result<(), TErr> {
        self.rec(ev("restart"));
        self.chkf("restart")
    }
    fn on_start(&mut self) -> Result<(), TErr> {
        if !self.w.borrow().cfg.mini() {
            self.rec(ev("on_start"));
        }
        self.chkf("on_start")
    }
    fn support_configure_aslr(&mut self) -> Option<ConfigureAslrOps<'_, Self>> {
        opt!(self, EASLR)
    }
    fn support_configure_env(&mut self) -> Option<ConfigureEnvOps<'_, Self>> {
        opt!(self, EENV)
    }
    fn support_configure_startup_shell(&mut self) -> Option<ConfigureStartupShellOps<'_, Self>> {
        opt!(self, ESHELL)
    }
    fn support_configure_working_dir(&mut self) -> Option<ConfigureWorkingDirOps<'_, Self>> {
        opt!(self, EWD)
    }
    fn support_current_active_pid(&mut self) -> Option<CurrentActivePidOps<'_, Self>> {
        opt!(self, EPID)
    }
}
impl<U: HU> ConfigureAslr for Mock<U> {
    fn cfg_aslr(&mut self, enabled: bool) -> TargetResult<(), Self> {
        self.rec(ev("aslr").n(enabled as u64));
        self.chk("aslr")
    }
}
impl<U: HU> ConfigureEnv for Mock<U> {
    fn set_env(&mut self, key: &[u8], val: Option<&[u8]>) -> TargetResult<(), Self> {
        self.rec(ev("set_env").b(key).opt(val));
        self.chk("env")
    }
    fn remove_env(&mut self, key: &[u8]) -> TargetResult<(), Self> {
        self.rec(ev("rm_env").b(key));
        self.chk("env")
    }
    fn reset_env(&mut self) -> TargetResult<(), Self> {
        self.rec(ev("reset_env"));
        self.chk("env")
    }
}
impl<U: HU> ConfigureStartupShell for Mock<U> {
    fn cfg_startup_with_shell(&mut self, enabled: bool) -> TargetResult<(), Self> {
        self.rec(ev("shell").n(enabled as u64));
        self.chk("shell")
    }
}
impl<U: HU> ConfigureWorkingDir for Mock<U> {
    fn cfg_working_dir(&mut self, dir: Option<&[u8]>) -> TargetResult<(), Self> {
        self.rec(ev("wd").opt(dir));
        self.chk("wd")
    }
}
impl<U: HU> CurrentActivePid for Mock<U> {
    fn current_active_pid(&mut self) -> Result<Pid, TErr> {
        self.w.borrow_mut().queries += 1;
        self.chkf("cur_pid")?;
        let p = self.w.borrow().pid;
        Ok(Pid::new(p).unwrap())
    }
}

impl<U: HU> HostIo for Mock<U> {
    fn support_open(&mut self) -> Option<HostIoOpenOps<'_, Self>> {
        opt!(self, HOPEN)
    }
    fn support_close(&mut self) -> Option<HostIoCloseOps<'_, Self>> {
        opt!(self, HCLOSE)
    }
    fn support_pread(&mut self) -> Option<HostIoPreadOps<'_, Self>> {
        opt!(self, HPREAD)
    }
    fn support_pwrite(&mut self) -> Option<HostIoPwriteOps<'_, Self>> {
        opt!(self, HPWRITE)
    }
    fn support_fstat(&mut self) -> Option<HostIoFstatOps<'_, Self>> {
        opt!(self, HFSTAT)
    }
    fn support_unlink(&mut self) -> Option<HostIoUnlinkOps<'_, Self>> {
        opt!(self, HUNLINK)
    }
    fn support_readlink(&mut self) -> Option<HostIoReadlinkOps<'_, Self>> {
        opt!(self, HREADLINK)
    }
    fn support_setfs(&mut self) -> Option<HostIoSetfsOps<'_, Self>> {
        opt!(self, HSETFS)
    }
}
/// the documented constants and the values the protocol gives them
const OPEN_FLAGS: [(HostIoOpenFlags, u64); 11] = [
    (HostIoOpenFlags::O_RDONLY, 0),
    (HostIoOpenFlags::O_WRONLY, 1),
    (HostIoOpenFlags::O_RDWR, 2),
    (HostIoOpenFlags::O_APPEND, 8),
    (HostIoOpenFlags::O_CREAT, 0x200),
    (HostIoOpenFlags::O_TRUNC, 0x400),
    (HostIoOpenFlags::O_EXCL, 0x800),
    (HostIoOpenFlags::O_NONBLOCK, 1 << 28),
    (HostIoOpenFlags::O_DONT_FOLLOW_SYMLINKS, 1 << 29),
    (HostIoOpenFlags::O_CLOSE_ON_EXEC, 1 << 30),
    (HostIoOpenFlags::O_INVALID, 1 << 31),
];
const OPEN_MODES: [(HostIoOpenMode, u64); 11] = [
    (HostIoOpenMode::S_IFREG, 0o100000),
    (HostIoOpenMode::S_IFDIR, 0o40000),
    (HostIoOpenMode::S_IRUSR, 0o400),
    (HostIoOpenMode::S_IWUSR, 0o200),
    (HostIoOpenMode::S_IXUSR, 0o100),
    (HostIoOpenMode::S_IRGRP, 0o40),
    (HostIoOpenMode::S_IWGRP, 0o20),
    (HostIoOpenMode::S_IXGRP, 0o10),
    (HostIoOpenMode::S_IROTH, 0o4),
    (HostIoOpenMode::S_IWOTH, 0o2),
    (HostIoOpenMode::S_IXOTH, 0o1),
];
fn flags_by_name(f: HostIoOpenFlags) -> u64 {
    let mut v = 0;
    for (c, b) in OPEN_FLAGS {
        if f.contains(c) {
            v |= b;
        } else if b == 0 {
            v |= 1 << 40; // O_RDONLY, zero, is part of every value
        }
    }
    v
}
fn mode_by_name(m: HostIoOpenMode) -> u64 {
    OPEN_MODES.iter().filter(|(c, _)| m.contains(*c)).fold(0, |v, (_, b)| v | b)
}
/// what a target does that describes a file with the named constants
fn mode_from_names(v: u64) -> HostIoOpenMode {
    OPEN_MODES.iter().filter(|(_, b)| v & b != 0).fold(HostIoOpenMode::empty(), |m, (c, _)| m | *c)
}

impl<U: HU> HostIoOpen for Mock<U> {
    fn open(&mut self, f: &[u8], flags: HostIoOpenFlags, mode: HostIoOpenMode) -> HostIoResult<u32, Self> {
        self.rec(ev("h_open").b(f).n(flags_by_name(flags)).n(mode_by_name(mode)));
        self.chkh("hio")?;
        Ok(self.w.borrow().hfd)
    }
}
impl<U: HU> HostIoClose for Mock<U> {
    fn close(&mut self, fd: u32) -> HostIoResult<(), Self> {
        self.rec(ev("h_close").n(fd as u64));
        self.chkh("hio")
    }
}
impl<U: HU> HostIoPread for Mock<U> {
    fn pread(&mut self, fd: u32, count: usize, offset: u64, buf: &mut [u8]) -> HostIoResult<usize, Self> {
        let n;
        {
            let mut w = self.w.borrow_mut();
            n = w.hdata.len().min(count).min(buf.len());
            buf[..n].copy_from_slice(&w.hdata[..n]);
            let e = ev("h_pread").n(fd as u64).n(count as u64).n(offset).b(&w.hdata[..n]);
            w.log.push(e);
        }
        self.chkh("hio")?;
        Ok(n)
    }
}
impl<U: HU> HostIoPwrite for Mock<U> {
    fn pwrite(&mut self, fd: u32, offset: U, data: &[u8]) -> HostIoResult<U, Self> {
        self.rec(ev("h_pwrite").n(fd as u64).n(u(offset)).b(data));
        self.chkh("hio")?;
        let r = self.w.borrow().hret;
        Ok(fu(r))
    }
}
impl<U: HU> HostIoFstat for Mock<U> {
    fn fstat(&mut self, fd: u32) -> HostIoResult<HostIoStat, Self> {
        self.rec(ev("h_fstat").n(fd as u64));
        self.chkh("hio")?;
        let s = self.w.borrow().hstat;
        Ok(HostIoStat {
            st_dev: s[0] as u32,
            st_ino: s[1] as u32,
            st_mode: mode_from_names(s[2]),
            st_nlink: s[3] as u32,
            st_uid: s[4] as u32,
            st_gid: s[5] as u32,
            st_rdev: s[6] as u32,
            st_size: s[7],
            st_blksize: s[8],
            st_blocks: s[9],
            st_atime: s[10] as u32,
            st_mtime: s[11] as u32,
            st_ctime: s[12] as u32,
        })
    }
}
impl<U: HU> HostIoUnlink for Mock<U> {
    fn unlink(&mut self, f: &[u8]) -> HostIoResult<(), Self> {
        self.rec(ev("h_unlink").b(f));
        self.chkh("hio")
    }
}
impl<U: HU> HostIoReadlink for Mock<U> {
    fn readlink(&mut self, f: &[u8], buf: &mut [u8]) -> HostIoResult<usize, Self> {
        let n;
        {
            let mut w = self.w.borrow_mut();
            n = w.hdata.len().min(buf.len());
            buf[..n].copy_from_slice(&w.hdata[..n]);
            // file name first, produced bytes second
            let e = ev("h_readlink").b(f).b(&w.hdata[..n]);
            w.log.push(e);
        }
        self.chkh("hio")?;
        Ok(n)
    }
}
impl<U: HU> HostIoSetfs for Mock<U> {
    fn setfs(&mut self, fs: FsKind) -> HostIoResult<(), Self> {
        self.rec(ev("h_setfs").n(match fs {
            FsKind::Stub => 0,
            FsKind::Pid(p) => p.get() as u64,
        }));
        self.chkh("hio")
    }
}

pub const XF: [&str; 5] = ["features", "memory-map", "exec-file", "auxv", "libraries-svr4"];

impl<U: HU> ext::target_description_xml_override::TargetDescriptionXmlOverride for Mock<U> {
    fn target_description_xml(&self, annex: &[u8], o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.xfer("xfer", 0, ev("xfer").n(0).b(annex), o, l, buf)
    }
}
impl<U: HU> ext::memory_map::MemoryMap for Mock<U> {
    fn memory_map_xml(&self, o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.xfer("xfer", 1, ev("xfer").n(1).b(b""), o, l, buf)
    }
}
impl<U: HU> ext::exec_file::ExecFile for Mock<U> {
    fn get_exec_file(&self, pid: Option<Pid>, o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        let a = match pid {
            None => vec![],
            Some(p) => format!("{:x}", p.get()).into_bytes(),
        };
        self.xfer("xfer", 2, ev("xfer").n(2).b(&a), o, l, buf)
    }
}
impl<U: HU> ext::auxv::Auxv for Mock<U> {
    fn get_auxv(&self, o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.xfer("xfer", 3, ev("xfer").n(3).b(b""), o, l, buf)
    }
}
impl<U: HU> ext::libraries::LibrariesSvr4 for Mock<U> {
    fn get_libraries_svr4(&self, o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.xfer("xfer", 4, ev("xfer").n(4).b(b""), o, l, buf)
    }
}

impl<U: HU> ext::section_offsets::SectionOffsets for Mock<U> {
    fn get_section_offsets(&mut self) -> Result<ext::section_offsets::Offsets<U>, TErr> {
        self.rec(ev("offsets"));
        self.chkf("offsets")?;
        let o = self.w.borrow().offsets;
        Ok(if o.0 {
            ext::section_offsets::Offsets::Sections { text: fu(o.1), data: fu(o.2), bss: o.3.map(fu) }
        } else {
            ext::section_offsets::Offsets::Segments { text_seg: fu(o.1), data_seg: o.3.map(fu) }
        })
    }
}

impl<U: HU> ext::thread_extra_info::ThreadExtraInfo for Mock<U> {
    fn thread_extra_info(&self, tid: Tid, buf: &mut [u8]) -> Result<usize, TErr> {
        let n;
        {
            let mut w = self.w.borrow_mut();
            n = w.extra.len().min(buf.len());
            buf[..n].copy_from_slice(&w.extra[..n]);
            let e = ev("extra").t(tt(tid)).b(&w.extra[..n]);
            w.log.push(e);
        }
        self.chkf("extra")?;
        Ok(n)
    }
}

impl<U: HU> ext::monitor_cmd::MonitorCmd for Mock<U> {
    fn handle_monitor_cmd(&mut self, cmd: &[u8], mut out: ext::monitor_cmd::ConsoleOutput<'_>) -> Result<(), TErr> {
        self.rec(ev("monitor").b(cmd));
        let script = self.w.borrow().mon.clone();
        for op in script {
            match op {
                MonOp::Raw(b) => out.write_raw(&b),
                MonOp::Fmt(s) => gdbstub::output!(out, "{}", s),
                MonOp::Ln(s) => gdbstub::outputln!(out, "{}", s),
                MonOp::Flush => {
                    #[cfg(feature = "alloc")]
                    out.flush()
                }
            }
        }
        self.chkf("monitor")
    }
}

impl<U: HU> lro::LldbRegisterInfoOverride for Mock<U> {
    fn lldb_register_info<'a>(&mut self, id: usize, cb: lro::Callback<'a>) -> Result<lro::CallbackToken<'a>, TErr> {
        self.rec(ev("lldb_reg").n(id as u64));
        self.chkf("lldb_reg")?;
        let r = self.w.borrow().lregs.get(&id).cloned();
        Ok(match r {
            Some(LReg::Reg(r)) => r.with(|x| cb.write(x)),
            _ => cb.done(),
        })
    }
}

fn act_ev(e: Ev, a: &TracepointAction<'_, impl HU>) -> Ev {
    match a {
        TracepointAction::Registers { mask } => e.n(0).b(mask),
        TracepointAction::Memory { basereg, offset, length } => {
            e.n(1).n(basereg.unwrap_or(u64::MAX)).n(u(*offset)).n(*length)
        }
        TracepointAction::Expression { expr } => e.n(2).b(expr),
    }
}

fn enum_step<U: HU>(w: &World, tp: &TPoint, acts: usize, srcs: usize) -> TracepointEnumerateStep<U> {
    // acts / srcs: number already reported
    if tp.src_first && w.cfg.has(F::TSRC) && srcs < tp.srcs.len() {
        return TracepointEnumerateStep::Source;
    }
    if acts < tp.acts.len() {
        return TracepointEnumerateStep::Action;
    }
    if w.cfg.has(F::TSRC) && srcs < tp.srcs.len() {
        return TracepointEnumerateStep::Source;
    }
    let i = w.tps.iter().position(|t| t.num == tp.num).unwrap();
    match w.tps.get(i + 1) {
        Some(n) => TracepointEnumerateStep::Next { tp: Tracepoint(n.num), addr: fu(n.addr) },
        None => TracepointEnumerateStep::Done,
    }
}

impl<U: HU> Tracepoints for Mock<U> {
    fn tracepoints_init(&mut self) -> TargetResult<(), Self> {
        self.rec(ev("t_init"));
        self.chk("t_init")
    }
    fn tracepoint_create_begin(&mut self, t: NewTracepoint<U>) -> TargetResult<(), Self> {
        self.rec(
            ev("t_begin").n(t.number.0 as u64).n(u(t.addr)).n(t.enabled as u64).n(t.step_count).n(t.pass_count),
        );
        self.chk("t_begin")
    }
    fn tracepoint_create_continue(&mut self, tp: Tracepoint, a: &TracepointAction<'_, U>) -> TargetResult<(), Self> {
        self.rec(act_ev(ev("t_act").n(tp.0 as u64), a));
        self.chk("t_act")
    }
    fn tracepoint_create_complete(&mut self, tp: Tracepoint) -> TargetResult<(), Self> {
        self.rec(ev("t_done").n(tp.0 as u64));
        self.chk("t_done")
    }
    fn tracepoint_status(&self, tp: Tracepoint, addr: U) -> TargetResult<TracepointStatus, Self> {
        self.rec(ev("t_stat").n(tp.0 as u64).n(u(addr)));
        self.chk("t_stat")?;
        let s = self.w.borrow().tpstat;
        Ok(TracepointStatus { hit_count: s.0, bytes_used: s.1 })
    }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<U> {
        &mut self.est
    }
    fn tracepoint_enumerate_start(
        &mut self,
        tp: Option<Tracepoint>,
        f: &mut dyn FnMut(&NewTracepoint<U>),
    ) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        self.rec(ev("t_enum").n(tp.map(|t| t.0 as u64 + 1).unwrap_or(0)));
        let err = self.chk("t_enum");
        let w = self.w.borrow();
        let t = match tp {
            None => w.tps.first(),
            Some(t) => w.tps.iter().find(|x| x.num == t.0),
        };
        match t {
            None => err.map(|_| TracepointEnumerateStep::Done),
            Some(t) => {
                f(&NewTracepoint {
                    number: Tracepoint(t.num),
                    enabled: t.enabled,
                    addr: fu(t.addr),
                    step_count: t.step,
                    pass_count: t.pass,
                });
                err?;
                Ok(enum_step(&w, t, 0, 0))
            }
        }
    }
    fn tracepoint_enumerate_action(
        &mut self,
        tp: Tracepoint,
        step: u64,
        f: &mut dyn FnMut(&TracepointAction<'_, U>),
    ) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        self.rec(ev("t_enum_act").n(tp.0 as u64).n(step));
        self.chk("t_enum_act")?;
        let mut w = self.w.borrow_mut();
        let t = match w.tps.iter().find(|x| x.num == tp.0) {
            Some(t) => t.clone(),
            None => return Err(TargetError::NonFatal),
        };
        match t.acts.get(step as usize) {
            None => Ok(TracepointEnumerateStep::Done),
            Some(a) => {
                let mut tmp;
                let act = match a {
                    TAct::Regs(m) => {
                        tmp = m.clone();
                        TracepointAction::Registers { mask: managed::ManagedSlice::Borrowed(&mut tmp) }
                    }
                    TAct::Mem(b, o, l) => TracepointAction::Memory { basereg: *b, offset: fu(*o), length: *l },
                    TAct::Expr(x) => {
                        tmp = x.clone();
                        TracepointAction::Expression { expr: managed::ManagedSlice::Borrowed(&mut tmp) }
                    }
                };
                f(&act);
                w.calls += 1;
                Ok(enum_step(&w, &t, step as usize + 1, if t.src_first { t.srcs.len() } else { 0 }))
            }
        }
    }
    fn trace_buffer_configure(&mut self, c: TraceBufferConfig) -> TargetResult<(), Self> {
        let e = ev("t_buf");
        self.rec(match c {
            TraceBufferConfig::Shape(BufferShape::Circular) => e.n(0).n(1),
            TraceBufferConfig::Shape(BufferShape::Linear) => e.n(0).n(0),
            TraceBufferConfig::Size(None) => e.n(1),
            TraceBufferConfig::Size(Some(s)) => e.n(1).n(s),
        });
        self.chk("t_buf")
    }
    fn trace_buffer_request(&mut self, offset: u64, len: usize, f: &mut dyn FnMut(&mut [u8])) -> TargetResult<(), Self> {
        self.rec(ev("t_req").n(offset).n(len as u64));
        let mut data = {
            let w = self.w.borrow();
            let s = offset.min(w.tbuf.len() as u64) as usize;
            let e = s.saturating_add(len).min(w.tbuf.len());
            w.tbuf[s..e].to_vec()
        };
        let err = self.chk("t_req");
        if !data.is_empty() {
            f(&mut data);
        }
        err
    }
    fn trace_experiment_status(&self, report: &mut dyn FnMut(ExperimentStatus<'_>)) -> TargetResult<(), Self> {
        self.rec(ev("t_status"));
        self.chk("t_status")?;
        let s = self.w.borrow().tstatus.clone();
        match &s {
            None => {}
            Some(s) => report(match s {
                TStatus::Running => ExperimentStatus::Running,
                TStatus::NotRunning => ExperimentStatus::NotRunning,
                TStatus::NotRun => ExperimentStatus::NotRun,
                TStatus::Stop(t) => ExperimentStatus::Stop(t.as_deref()),
                TStatus::Full => ExperimentStatus::Full,
                TStatus::Disconnected => ExperimentStatus::Disconnected,
                TStatus::PassCount(n) => ExperimentStatus::PassCount(Tracepoint(*n)),
                TStatus::Error(t, n) => ExperimentStatus::Error(t, Tracepoint(*n)),
                TStatus::Unknown => ExperimentStatus::Unknown,
            }),
        }
        if s.is_some() && self.w.borrow().tstatus_twice {
            report(ExperimentStatus::Full);
        }
        Ok(())
    }
    fn trace_experiment_info(&self, report: &mut dyn FnMut(ExperimentExplanation<'_>)) -> TargetResult<(), Self> {
        self.rec(ev("t_info"));
        let err = self.chk("t_info");
        let s = self.w.borrow().tinfo.clone();
        for i in &s {
            report(match i {
                TInfo::Frames(n) => ExperimentExplanation::Frames(*n),
                TInfo::Created(n) => ExperimentExplanation::Created(*n),
                TInfo::Size(n) => ExperimentExplanation::Size(*n),
                TInfo::Free(n) => ExperimentExplanation::Free(*n),
                TInfo::Circular(b) => ExperimentExplanation::Circular(*b),
                TInfo::Disc(b) => ExperimentExplanation::DisconnectedTracing(*b),
                TInfo::Other(s) => ExperimentExplanation::Other(s),
            });
        }
        err
    }
    fn trace_experiment_start(&mut self) -> TargetResult<(), Self> {
        self.rec(ev("t_start"));
        self.chk("t_start")
    }
    fn trace_experiment_stop(&mut self) -> TargetResult<(), Self> {
        self.rec(ev("t_stop"));
        self.chk("t_stop")
    }
    fn select_frame(&mut self, frame: FrameRequest<U>, report: &mut dyn FnMut(FrameDescription)) -> TargetResult<(), Self> {
        let e = ev("t_frame");
        self.rec(match frame {
            FrameRequest::Select(n) => e.n(0).n(n),
            FrameRequest::AtPC(a) => e.n(1).n(u(a)),
            FrameRequest::Hit(t) => e.n(2).n(t.0 as u64),
            FrameRequest::Between(a, b) => e.n(3).n(u(a)).n(u(b)),
            FrameRequest::Outside(a, b) => e.n(4).n(u(a)).n(u(b)),
        });
        let err = self.chk("t_frame");
        let fr = self.w.borrow().frame.clone();
        for (is_hit, n) in fr {
            report(if is_hit { FrameDescription::Hit(Tracepoint(n as usize)) } else { FrameDescription::FrameNumber(n) });
        }
        err
    }
    fn support_tracepoint_source(&mut self) -> Option<TracepointSourceOps<'_, Self>> {
        opt!(self, TSRC)
    }
}
impl<U: HU> TracepointSource for Mock<U> {
    fn tracepoint_attach_source(&mut self, s: SourceTracepoint<'_, U>) -> TargetResult<(), Self> {
        self.rec(
            ev("t_src")
                .n(s.number.0 as u64)
                .n(u(s.addr))
                .n(match s.kind {
                    TracepointSourceType::At => 0,
                    TracepointSourceType::Cond => 1,
                    TracepointSourceType::Cmd => 2,
                })
                .n(s.start as u64)
                .n(s.slen as u64)
                .b(&s.bytes),
        );
        self.chk("t_src")
    }
    fn tracepoint_enumerate_source(
        &mut self,
        tp: Tracepoint,
        step: u64,
        f: &mut dyn FnMut(&SourceTracepoint<'_, U>),
    ) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        self.rec(ev("t_enum_src").n(tp.0 as u64).n(step));
        self.chk("t_enum_src")?;
        let w = self.w.borrow();
        let t = match w.tps.iter().find(|x| x.num == tp.0) {
            Some(t) => t.clone(),
            None => return Err(TargetError::NonFatal),
        };
        match t.srcs.get(step as usize) {
            None => Ok(TracepointEnumerateStep::Done),
            Some(s) => {
                let mut tmp = s.bytes.clone();
                f(&SourceTracepoint {
                    number: tp,
                    addr: fu(t.addr),
                    kind: match s.kind {
                        0 => TracepointSourceType::At,
                        1 => TracepointSourceType::Cond,
                        _ => TracepointSourceType::Cmd,
                    },
                    start: s.start,
                    slen: s.slen,
                    bytes: managed::ManagedSlice::Borrowed(&mut tmp),
                });
                Ok(enum_step(&w, &t, if t.src_first { 0 } else { t.acts.len() }, step as usize + 1))
            }
        }
    }
}
