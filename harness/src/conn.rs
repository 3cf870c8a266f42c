//! Recording in-memory connection with fault injection.
use gdbstub::conn::{Connection, ConnectionExt};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct CErr(pub u32);
impl std::fmt::Display for CErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "cerr{}", self.0)
    }
}

#[derive(Default)]
pub struct CLog {
    pub out: Vec<u8>,
    /// lengths of `out` at each flush
    pub flushes: Vec<usize>,
    pub starts: usize,
    pub ops: usize,
    /// 'w','f','s' per op
    pub trace: Vec<u8>,
    pub record_trace: bool,
    /// fail the op with this index with this code
    pub fail_at: Option<(usize, u32)>,
    pub failed: Option<u32>,
    /// ops performed after a failure
    pub flush_after_fail: usize,
    pub fail_start: Option<u32>,
    /// input for ConnectionExt
    pub input: VecDeque<u8>,
    pub fail_read_at: Option<(usize, u32)>,
    pub reads: usize,
    pub peeks: usize,
}

/// no session of this harness legitimately comes close
pub const MAX_OPS: usize = 8_000_000;

#[derive(Clone)]
pub struct Conn(pub Rc<RefCell<CLog>>);

impl Conn {
    pub fn new() -> Conn {
        Conn(Rc::new(RefCell::new(CLog::default())))
    }
    fn op(&self, k: u8) -> Result<(), CErr> {
        let mut l = self.0.borrow_mut();
        let i = l.ops;
        l.ops += 1;
        if i > MAX_OPS {
            drop(l);
            panic!("runaway: more than {} connection operations in one session", MAX_OPS);
        }
        if l.record_trace {
            l.trace.push(k);
        }
        if l.failed.is_some() && k == b'f' {
            l.flush_after_fail += 1;
        }
        if let Some((at, code)) = l.fail_at {
            if at == i {
                l.failed = Some(code);
                return Err(CErr(code));
            }
        }
        Ok(())
    }
}

impl Connection for Conn {
    type Error = CErr;
    fn write(&mut self, byte: u8) -> Result<(), CErr> {
        self.op(b'w')?;
        self.0.borrow_mut().out.push(byte);
        Ok(())
    }
    fn write_all(&mut self, buf: &[u8]) -> Result<(), CErr> {
        // counted like the equivalent single-byte writes
        for b in buf {
            self.write(*b)?;
        }
        Ok(())
    }
    fn flush(&mut self) -> Result<(), CErr> {
        self.op(b'f')?;
        let mut l = self.0.borrow_mut();
        let n = l.out.len();
        l.flushes.push(n);
        Ok(())
    }
    fn on_session_start(&mut self) -> Result<(), CErr> {
        let mut l = self.0.borrow_mut();
        l.starts += 1;
        if l.record_trace {
            l.trace.push(b's');
        }
        match l.fail_start {
            Some(c) => Err(CErr(c)),
            None => Ok(()),
        }
    }
}

/// code used when the scripted input is exhausted
pub const EOF_CODE: u32 = 0xE0F;

impl ConnectionExt for Conn {
    fn read(&mut self) -> Result<u8, CErr> {
        let mut l = self.0.borrow_mut();
        let i = l.reads;
        l.reads += 1;
        if l.record_trace {
            l.trace.push(b'r');
        }
        if let Some((at, code)) = l.fail_read_at {
            if i == at {
                return Err(CErr(code));
            }
        }
        l.input.pop_front().ok_or(CErr(EOF_CODE))
    }
    fn peek(&mut self) -> Result<Option<u8>, CErr> {
        let mut l = self.0.borrow_mut();
        l.peeks += 1;
        if l.record_trace {
            l.trace.push(b'p');
        }
        Ok(l.input.front().copied())
    }
}
