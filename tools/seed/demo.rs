//! Helper for demonstrations: one client session against the mock target.
#![allow(dead_code)]
use crate::conn::*;
use crate::drive::*;
use crate::target::*;
use crate::util::*;
use crate::wire::*;
use std::cell::RefCell;
use std::rc::Rc;

pub struct D {
    pub cfg: Cfg,
    pub bits: u32,
    pub buf: BufCfg,
    pub wrap: Wrap,
    pub w: Shared,
    pub c: Rc<RefCell<CLog>>,
}

impl D {
    /// every feature except those listed
    pub fn new(off: &[F]) -> D {
        let mut cfg = Cfg::all();
        for f in off {
            cfg.set(*f, false);
        }
        let mut w = World::new(cfg, 1);
        w.threads = vec![1, 2, 3];
        let w = Rc::new(RefCell::new(w));
        ARCH_LLDB.with(|x| *x.borrow_mut() = Some(w.clone()));
        D {
            cfg,
            bits: 64,
            buf: BufCfg { owned: true, len: 4096, fill: 0, explicit: false },
            wrap: Wrap::Plain,
            w,
            c: Conn::new().0,
        }
    }
    pub fn run(&self, f: impl FnOnce(&mut S)) {
        let mut f = Some(f);
        with_bits(self.bits, self.w.clone(), self.c.clone(), self.buf, self.wrap, &mut |s| {
            let mut s = S { s, d: self, pos: 0, ev: 0 };
            (f.take().unwrap())(&mut s)
        })
    }
}

pub struct S<'a> {
    pub s: &'a mut dyn Sess,
    pub d: &'a D,
    pos: usize,
    ev: usize,
}
impl S<'_> {
    /// bytes transmitted since the last call
    pub fn out(&mut self) -> Vec<u8> {
        let o = self.d.c.borrow().out[self.pos..].to_vec();
        self.pos += o.len();
        o
    }
    /// feed raw bytes while the session is alive, return what was transmitted
    pub fn raw(&mut self, b: &[u8]) -> String {
        for x in b {
            if matches!(self.s.st(), St::Idle | St::Running) {
                self.s.feed(*x);
            }
        }
        show(&self.out())
    }
    /// send a packet, return what was transmitted (raw)
    pub fn send(&mut self, body: impl AsRef<[u8]>) -> String {
        self.raw(&frame(body.as_ref()))
    }
    /// send a packet, return the decoded reply packets
    pub fn cmd(&mut self, body: impl AsRef<[u8]>) -> Vec<String> {
        for x in frame(body.as_ref()) {
            if matches!(self.s.st(), St::Idle | St::Running) {
                self.s.feed(x);
            }
        }
        let o = self.out();
        packets(&o, self.d.cfg.has(F::RLE)).iter().map(|p| show(p)).collect()
    }
    /// target calls since the last call
    pub fn evs(&mut self) -> Vec<String> {
        let l = self.d.w.borrow();
        let v = l.log[self.ev..].iter().map(|e| format!("{:?}", e)).collect();
        self.ev = l.log.len();
        v
    }
    pub fn st(&self) -> String {
        format!("{:?}", self.s.st())
    }
    pub fn stop(&mut self, sr: SR) -> String {
        self.s.stop(&Stop { sr, single: false });
        show(&self.out())
    }
    pub fn int(&mut self, sr: Option<SR>) -> String {
        let s = sr.map(|sr| Stop { sr, single: false });
        self.s.int_handled(s.as_ref());
        show(&self.out())
    }
}

pub fn packets(b: &[u8], rle: bool) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'$' {
            i += 1;
            continue;
        }
        let j = b[i..].iter().position(|c| *c == b'#').expect("unterminated packet") + i;
        let (p, bad, _) = rle_expand(&b[i + 1..j], rle);
        assert!(bad.is_empty(), "{:?}", bad);
        let sum = b[i + 1..j].iter().fold(0u8, |a, c| a.wrapping_add(*c));
        assert_eq!(format!("{:02x}", sum).as_bytes(), &b[j + 1..j + 3], "checksum");
        v.push(p);
        i = j + 3;
    }
    v
}

#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            println!("DEMO: {}: got {:?}, expected {:?}", stringify!($a), a, b);
            std::process::exit(1);
        }
    }};
}
