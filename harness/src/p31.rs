//! P31: the built-in stream transports over real sockets.
use crate::conn::EOF_CODE;
use crate::drive::*;
use crate::engine::*;
use crate::p27;
use crate::target::*;
use crate::util::*;
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::stub::{GdbStub, MultiThreadStopReason, SingleThreadStopReason};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
    fn signal(sig: i32, h: extern "C" fn(i32)) -> usize;
    fn siginterrupt(sig: i32, on: i32) -> i32;
    fn pthread_self() -> usize;
    fn pthread_kill(t: usize, sig: i32) -> i32;
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32;
}
/// wait (bounded) until the kernel reports input on `fd`
fn readable(fd: i32, ms: i32) -> bool {
    let mut p = PollFd { fd, events: 1, revents: 0 };
    unsafe { poll(&mut p, 1, ms) > 0 }
}
fn small_buffers(fd: i32, n: i32) {
    unsafe {
        // SOL_SOCKET, SO_SNDBUF / SO_RCVBUF
        setsockopt(fd, 1, 7, &n, 4);
        setsockopt(fd, 1, 8, &n, 4);
    }
}

/// Interrupts the calling thread's system calls until dropped.
struct Kicker(Arc<AtomicBool>, Option<std::thread::JoinHandle<u64>>);
extern "C" fn nothing(_: i32) {}
impl Kicker {
    fn new(seed: u64) -> Kicker {
        const USR1: i32 = 10;
        let me = unsafe {
            signal(USR1, nothing);
            siginterrupt(USR1, 1);
            pthread_self()
        };
        let stop = Arc::new(AtomicBool::new(false));
        let s = stop.clone();
        let t = std::thread::spawn(move || {
            let mut r = Rng::new(seed);
            let mut n = 0;
            while !s.load(Relaxed) {
                std::thread::sleep(Duration::from_micros(20 + r.below(400) as u64));
                // the thread is alive: it joins this one
                unsafe { pthread_kill(me, USR1) };
                n += 1;
            }
            n
        });
        Kicker(stop, Some(t))
    }
    fn stop(mut self) -> u64 {
        self.0.store(true, Relaxed);
        self.1.take().map_or(0, |t| t.join().unwrap_or(0))
    }
}

/// cases that had to wait for a call that must not block
static SLOW: AtomicUsize = AtomicUsize::new(0);

pub trait Sock: ConnectionExt<Error = std::io::Error> + Read + Write + AsRawFd + Send + Sized + 'static {
    const NAME: &'static str;
    fn pair() -> std::io::Result<(Self, Self)>;
    fn dup(&self) -> Self;
    fn shut(&self, h: Shutdown);
    fn timeout(&self, d: Option<Duration>);
    fn nodelay_on(&self) -> Option<bool>;
}
impl Sock for TcpStream {
    const NAME: &'static str = "TcpStream";
    fn pair() -> std::io::Result<(Self, Self)> {
        let l = TcpListener::bind("127.0.0.1:0")?;
        let a = l.local_addr()?;
        let c = TcpStream::connect(a)?;
        c.set_nodelay(true)?;
        let (s, _) = l.accept()?;
        Ok((s, c))
    }
    fn dup(&self) -> Self {
        self.try_clone().expect("dup")
    }
    fn shut(&self, h: Shutdown) {
        let _ = self.shutdown(h);
    }
    fn timeout(&self, d: Option<Duration>) {
        let _ = self.set_read_timeout(d);
    }
    fn nodelay_on(&self) -> Option<bool> {
        self.nodelay().ok()
    }
}
impl Sock for UnixStream {
    const NAME: &'static str = "UnixStream";
    fn pair() -> std::io::Result<(Self, Self)> {
        UnixStream::pair()
    }
    fn dup(&self) -> Self {
        self.try_clone().expect("dup")
    }
    fn shut(&self, h: Shutdown) {
        let _ = self.shutdown(h);
    }
    fn timeout(&self, d: Option<Duration>) {
        let _ = self.set_read_timeout(d);
    }
    fn nodelay_on(&self) -> Option<bool> {
        None
    }
}

fn bad(m: String) -> Vec<Fail> {
    vec![Fail { tags: vec!["P31"], label: "socket", msg: m }]
}

/// the longest a call that must not block may take
const PROMPT: Duration = Duration::from_millis(2500);

// --- single-threaded scripts of operations against a model queue ---------

#[derive(Debug, Clone)]
enum Op {
    /// the client sends bytes
    Send(Vec<u8>),
    Read,
    Peek,
    Write(u8),
    WriteAll(Vec<u8>),
    Flush,
    /// the client reads everything there is
    Drain,
    /// the client stops sending
    Eof,
    /// a byte arrives while the stub is blocked reading
    Late(u8),
}

fn ops_on<S: Sock>(r: &mut Rng, st: &mut Stats) -> Vec<Fail> {
    if SLOW.load(Relaxed) > 2 {
        // enough evidence, and every further case takes seconds
        return vec![];
    }
    let (mut s, mut c) = match S::pair() {
        Ok(p) => p,
        Err(_) => {
            st.note("no_socket", 1);
            return vec![];
        }
    };
    s.timeout(Some(Duration::from_secs(3)));
    c.timeout(Some(Duration::from_secs(20)));
    let mut q: VecDeque<u8> = VecDeque::new();
    let mut sent: VecDeque<u8> = VecDeque::new();
    let mut eof = false;
    let mut h = 1;
    let mut hist: Vec<String> = vec![];
    let fd = s.as_raw_fd();
    if r.chance(1, 2) {
        if let Err(e) = Connection::on_session_start(&mut s) {
            return bad(format!("{}: session start failed: {}", S::NAME, e));
        }
        if s.nodelay_on() == Some(false) {
            return bad(format!("{}: small packets are delayed after session start", S::NAME));
        }
    }
    let peeky = r.below(10);
    for _ in 0..r.range(5, 60) {
        let op = match r.below(18 + peeky) {
            0..=2 if !eof => Op::Send({
                let n = 1 + r.below(6);
                r.payload(n)
            }),
            3..=6 => Op::Read,
            7 | 8 => Op::Write(r.next() as u8),
            9 => Op::WriteAll({
                let n = r.below(300);
                r.payload(n)
            }),
            10 => Op::Flush,
            11 | 12 => Op::Drain,
            13 if r.chance(1, 6) => Op::Eof,
            14 if !eof && r.chance(1, 4) => Op::Late(r.next() as u8),
            _ => Op::Peek,
        };
        let t0 = Instant::now();
        let mut res = String::new();
        let mut err = None;
        match &op {
            Op::Send(v) => {
                Write::write_all(&mut c, v).expect("client write");
                q.extend(v);
            }
            Op::Read => {
                if q.is_empty() && !eof {
                    continue;
                }
                let x = ConnectionExt::read(&mut s);
                res = format!("{:?}", x.as_ref().map_err(|e| e.kind()));
                st.note("reads", 1);
                match (q.pop_front(), x) {
                    (Some(b), Ok(x)) if b == x => {}
                    (None, Err(_)) => st.note("eof_reads", 1),
                    (w, x) => err = Some(format!("read returned {:?}, the next byte is {:?}", x, w)),
                }
            }
            Op::Peek => {
                // delivery takes time
                if (!q.is_empty() || eof) && !readable(fd, 5000) {
                    st.note("slow_network", 1);
                    continue;
                }
                let mut x = ConnectionExt::peek(&mut s);
                let mut slow = 0;
                while t0.elapsed() > PROMPT && slow < 2 {
                    // once more, in case the machine was busy
                    slow += 1;
                    let t = Instant::now();
                    x = ConnectionExt::peek(&mut s);
                    if t.elapsed() < PROMPT {
                        break;
                    }
                    if slow == 2 {
                        SLOW.fetch_add(1, Relaxed);
                        err = Some("peek blocks when there is no input".into());
                    }
                }
                res = format!("{:?}", x.as_ref().map_err(|e| e.kind()));
                st.note("peeks", 1);
                if err.is_none() {
                    match (q.front(), x) {
                        (Some(b), Ok(Some(x))) if *b == x => st.note("peeks_with_data", 1),
                        (None, Ok(None)) => {}
                        (None, Err(_)) if eof => {}
                        (w, x) => err = Some(format!("peek returned {:?}, the next byte is {:?}, end of input {}", x, w, eof)),
                    }
                }
            }
            Op::Write(b) => match Connection::write(&mut s, *b) {
                Ok(()) => sent.push_back(*b),
                Err(e) => err = Some(format!("write failed: {}", e)),
            },
            Op::WriteAll(v) => match Connection::write_all(&mut s, v) {
                Ok(()) => sent.extend(v),
                Err(e) => err = Some(format!("write_all failed: {}", e)),
            },
            Op::Flush => {
                if let Err(e) = Connection::flush(&mut s) {
                    err = Some(format!("flush failed: {}", e));
                }
            }
            Op::Drain => {
                if let Err(e) = Connection::flush(&mut s) {
                    err = Some(format!("flush failed: {}", e));
                }
                let want: Vec<u8> = sent.drain(..).collect();
                let mut got = vec![0; want.len()];
                st.bytes_out += want.len() as u64;
                match c.read_exact(&mut got) {
                    Ok(()) if got == want => {}
                    Ok(()) => err = Some(format!("client received [{}] instead of [{}]", show(&got), show(&want))),
                    Err(e) => err = Some(format!("client missed some of {} bytes: {}", want.len(), e)),
                }
                // and nothing more
                if err.is_none() && readable(c.as_raw_fd(), 0) {
                    let mut b = [0];
                    if let Ok(1) = Read::read(&mut c, &mut b) {
                        err = Some(format!("client received an extra byte {:#04x}", b[0]));
                    }
                }
            }
            Op::Eof => {
                c.shut(Shutdown::Write);
                eof = true;
            }
            Op::Late(b) => {
                if !q.is_empty() {
                    continue;
                }
                let b = *b;
                let mut c2 = c.dup();
                let t = std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_millis(2));
                    let _ = Write::write_all(&mut c2, &[b]);
                });
                let x = ConnectionExt::read(&mut s);
                let _ = t.join();
                res = format!("{:?}", x.as_ref().map_err(|e| e.kind()));
                st.note("reads_that_waited", 1);
                if !matches!(x, Ok(x) if x == b) {
                    err = Some(format!("read returned {:?} instead of waiting for {:#04x}", x, b));
                }
            }
        }
        st.steps += 1;
        hist.push(format!("{:?} {}", op, res));
        h = fnv(h, format!("{:?}{}", op, res).as_bytes());
        st.distinct.insert(h);
        if let Some(e) = err {
            let k = hist.len().saturating_sub(15);
            return bad(format!("{}: {}\n  {}", S::NAME, e, hist[k..].join("\n  ")));
        }
    }
    vec![]
}

/// a transport that implements nothing but what `Connection` requires
struct Plain {
    out: Rc<RefCell<Vec<u8>>>,
    flushes: Rc<RefCell<usize>>,
    room: Rc<RefCell<usize>>,
}
impl Connection for Plain {
    type Error = &'static str;
    fn write(&mut self, b: u8) -> Result<(), &'static str> {
        let mut room = self.room.borrow_mut();
        if *room == 0 {
            return Err("full");
        }
        *room -= 1;
        self.out.borrow_mut().push(b);
        Ok(())
    }
    fn flush(&mut self) -> Result<(), &'static str> {
        *self.flushes.borrow_mut() += 1;
        Ok(())
    }
}

/// default methods of `Connection`, directly and through a box: every byte once
/// and in order, nothing after the first error
fn plain(r: &mut Rng, st: &mut Stats) -> Vec<Fail> {
    let (out, flushes, room) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(0)), Rc::new(RefCell::new(r.below(400))));
    let p = Plain { out: out.clone(), flushes: flushes.clone(), room: room.clone() };
    let mut want: Vec<u8> = vec![];
    let mut nfl = 0;
    let mut p: Box<dyn Connection<Error = &'static str>> = Box::new(p);
    let mut q = Plain { out: out.clone(), flushes: flushes.clone(), room: room.clone() };
    for _ in 0..r.range(5, 30) {
        let boxed = r.chance(1, 2);
        macro_rules! on {
            ($m:ident($($a:expr),*)) => { if boxed { p.$m($($a),*) } else { q.$m($($a),*) } };
        }
        let had = *room.borrow();
        let (what, res, ok) = match r.below(6) {
            0 => {
                let b = r.next() as u8;
                if had > 0 {
                    want.push(b);
                }
                ("write", on!(write(b)), had > 0)
            }
            1..=3 => {
                let n = *r.pick(&[0usize, 1, 2, 3, 16, 100]);
                let v = r.payload(n);
                want.extend(&v[..n.min(had)]);
                ("write_all", on!(write_all(&v)), n <= had)
            }
            4 => {
                nfl += 1;
                ("flush", on!(flush()), true)
            }
            _ => ("on_session_start", on!(on_session_start()), true),
        };
        st.steps += 1;
        if res.is_ok() != ok || *out.borrow() != want || *flushes.borrow() != nfl {
            return bad(format!(
                "default `Connection` methods ({}): {} returned {:?}, {} bytes arrived, expected {} and {}; same bytes: {}",
                if boxed { "boxed" } else { "direct" },
                what,
                res,
                out.borrow().len(),
                want.len(),
                if ok { "success" } else { "an error" },
                *out.borrow() == want
            ));
        }
    }
    st.note("plain_connection_bytes", want.len() as u64);
    vec![]
}

pub fn ops(_: &'static str, seed: u64, _: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let mut r = Rng::new(mix(seed, 0x31));
    let mut st = Stats::default();
    st.sessions = 1;
    if mix(seed, 0x32) % 4 == 0 {
        let f = plain(&mut r, &mut st);
        return (f, st);
    }
    let f = if r.chance(1, 2) { ops_on::<TcpStream>(&mut r, &mut st) } else { ops_on::<UnixStream>(&mut r, &mut st) };
    (f, st)
}

// --- bulk transfer with a slow peer ---------------------------------------

fn bulk_on<S: Sock>(r: &mut Rng, st: &mut Stats) -> Vec<Fail> {
    let (mut s, c) = match S::pair() {
        Ok(p) => p,
        Err(_) => {
            st.note("no_socket", 1);
            return vec![];
        }
    };
    // TCP stalls for long times when its windows get tiny
    let k = if S::NAME == "TcpStream" { 32_768 } else { 2048 };
    small_buffers(s.as_raw_fd(), k);
    small_buffers(c.as_raw_fd(), k);
    s.timeout(Some(Duration::from_secs(10)));
    c.timeout(Some(Duration::from_secs(60)));
    let n_out = r.range(1000, if S::NAME == "TcpStream" { 600_000 } else { 200_000 });
    let n_in = r.below(3000);
    let out: Vec<u8> = r.bytes(n_out);
    let inp: Vec<u8> = r.bytes(n_in);
    let (mut cr, mut cw) = (c.dup(), c);
    let seed = r.next();
    let want = out.len();
    let rd = std::thread::spawn(move || {
        let mut r = Rng::new(seed);
        let mut got = Vec::with_capacity(want);
        let mut naps = 0;
        let mut buf = [0u8; 4096];
        loop {
            if naps < 25 && r.chance(1, 6) {
                naps += 1;
                std::thread::sleep(Duration::from_micros(r.below(4000) as u64));
            }
            let n = 1 + r.below(4096);
            match Read::read(&mut cr, &mut buf[..n]) {
                Ok(0) => return (got, None),
                Ok(n) => got.extend_from_slice(&buf[..n]),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return (got, Some(e)),
            }
        }
    });
    let inp2 = inp.clone();
    let seed = r.next();
    let wr = std::thread::spawn(move || {
        let mut r = Rng::new(seed);
        let mut rest = &inp2[..];
        while !rest.is_empty() {
            let n = (1 + r.below(100)).min(rest.len());
            if Write::write_all(&mut cw, &rest[..n]).is_err() {
                return;
            }
            rest = &rest[n..];
            if r.chance(1, 4) {
                std::thread::sleep(Duration::from_micros(r.below(300) as u64));
            }
        }
        cw.shut(Shutdown::Write);
    });
    let mut err = None;
    let mut got_in = vec![];
    let mut pos = 0;
    let mut in_end = false;
    let mut pending: Option<u8> = None;
    let kick = if r.chance(1, 2) { Some(Kicker::new(r.next())) } else { None };
    while err.is_none() && (pos < out.len() || !in_end) {
        match r.below(6) {
            0 if !in_end => {
                st.note("peeks", 1);
                match ConnectionExt::peek(&mut s) {
                    Ok(Some(b)) => {
                        if pending.is_some() && pending != Some(b) {
                            err = Some(format!("peek returned {:?}, then {:#04x}", pending, b));
                        }
                        pending = Some(b)
                    }
                    Ok(None) => {
                        if pending.is_some() {
                            err = Some("peek consumed the byte it returned".into())
                        }
                    }
                    Err(_) => {
                        in_end = true;
                        if pending.is_some() {
                            err = Some("end of input with a byte pending".into())
                        }
                    }
                }
            }
            1 if !in_end => {
                let k = 1 + r.below(60);
                for _ in 0..k {
                    match ConnectionExt::read(&mut s) {
                        Ok(b) => {
                            if let Some(p) = pending.take() {
                                if p != b {
                                    err = Some(format!("read returned {:#04x} after peek said {:#04x}", b, p));
                                    break;
                                }
                            }
                            got_in.push(b);
                            if got_in.len() > inp.len() {
                                err = Some("read returned a byte past the end of input".into());
                                break;
                            }
                        }
                        Err(_) => {
                            in_end = true;
                            break;
                        }
                    }
                    if got_in.len() == inp.len() {
                        break;
                    }
                }
                if got_in.len() == inp.len() && r.chance(1, 2) {
                    in_end = true;
                }
            }
            _ => {
                let n = *r.pick(&[1, 1, 3, 50, 700, 20_000]);
                let n = n.min(out.len() - pos);
                let x = if n == 1 { Connection::write(&mut s, out[pos]) } else { Connection::write_all(&mut s, &out[pos..pos + n]) };
                match x {
                    Ok(()) => pos += n,
                    Err(e) => err = Some(format!("write failed at {} of {} with a slow peer: {}", pos, out.len(), e)),
                }
                if r.chance(1, 8) {
                    if let Err(e) = Connection::flush(&mut s) {
                        err = Some(format!("flush failed: {}", e));
                    }
                }
            }
        }
    }
    if let Some(k) = kick {
        st.note("signals", k.stop());
    }
    s.shut(Shutdown::Write);
    if err.is_some() {
        s.shut(Shutdown::Both);
    }
    let (got, e) = rd.join().expect("reader");
    // whatever was not read never will be
    drop(s);
    let _ = wr.join();
    st.bytes_out += got.len() as u64;
    st.bytes_in += got_in.len() as u64;
    st.distinct.insert(fnv(fnv(1, &got), &got_in));
    if let Some(e) = err {
        return bad(format!("{}: {}", S::NAME, e));
    }
    if got != out {
        let i = got.iter().zip(&out).position(|(a, b)| a != b).unwrap_or(got.len().min(out.len()));
        return bad(format!("{}: client received {} bytes of {}, first difference at {} ({:?})", S::NAME, got.len(), out.len(), i, e.map(|e| e.kind())));
    }
    if got_in != inp {
        return bad(format!("{}: stub received {} bytes of {}, or different ones", S::NAME, got_in.len(), inp.len()));
    }
    vec![]
}

pub fn bulk(_: &'static str, seed: u64, _: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let mut r = Rng::new(mix(seed, 0x3131));
    let mut st = Stats::default();
    st.sessions = 1;
    let f = if r.chance(1, 2) { bulk_on::<TcpStream>(&mut r, &mut st) } else { bulk_on::<UnixStream>(&mut r, &mut st) };
    (f, st)
}

// --- whole sessions ---------------------------------------------------------

macro_rules! loop_conn {
    ($($t:ty)*) => {$(
        impl p27::LoopConn for $t {
            fn mk(code: u32) -> std::io::Error {
                std::io::Error::new(ErrorKind::Other, code.to_string())
            }
            fn wait_read(&mut self) -> Result<u8, std::io::Error> {
                let mut n = 0;
                loop {
                    match ConnectionExt::peek(self)? {
                        Some(b) => {
                            let x = ConnectionExt::read(self)?;
                            return if x == b { Ok(b) } else { Err(std::io::Error::new(ErrorKind::Other, format!("peek {} read {}", b, x))) };
                        }
                        None => {
                            n += 1;
                            if n > 200 {
                                std::thread::sleep(Duration::from_micros(50));
                            } else {
                                std::thread::yield_now();
                            }
                        }
                    }
                }
            }
        }
    )*}
}
loop_conn!(TcpStream UnixStream);

fn session_on<S: Sock + p27::LoopConn, U: HU>(k: &p27::Case, r: &mut Rng, st: &mut Stats) -> Option<(p27::End, Vec<u8>, Vec<Ev>)> {
    let (s, c) = match S::pair() {
        Ok(p) => p,
        Err(_) => {
            st.note("no_socket", 1);
            return None;
        }
    };
    c.timeout(Some(Duration::from_secs(20)));
    let (mut cr, mut cw) = (c.dup(), c.dup());
    let mut keep = s.dup();
    let input = k.input.clone();
    let seed = r.next();
    let wr = std::thread::spawn(move || {
        let mut r = Rng::new(seed);
        let mut rest = &input[..];
        let whole = r.chance(1, 2);
        while !rest.is_empty() {
            let n = if whole { rest.len() } else { (1 + r.below(60)).min(rest.len()) };
            if Write::write_all(&mut cw, &rest[..n]).is_err() {
                return;
            }
            rest = &rest[n..];
        }
        cw.shut(Shutdown::Write);
    });
    let rd = std::thread::spawn(move || {
        let mut got = vec![];
        let _ = cr.read_to_end(&mut got);
        got
    });
    let w = p27::world(k);
    p27::set_script(&k.script);
    let mut mock = Mock::<U>::new(w.clone());
    let b = k.plan.buf;
    let mut store: Vec<u8> = vec![b.fill; b.len];
    let mut bl = GdbStub::builder(s);
    bl = if b.owned { bl.packet_buffer_size(b.len) } else { bl.with_packet_buffer(&mut store) };
    let end = match bl.build() {
        Err(e) => p27::End::Panic(format!("builder: {}", e)),
        Ok(stub) => match guard(|| {
            if k.single {
                stub.run_blocking::<p27::Loop<U, SingleThreadStopReason<U>, S>>(&mut mock)
            } else {
                stub.run_blocking::<p27::Loop<U, MultiThreadStopReason<U>, S>>(&mut mock)
            }
        }) {
            Err(p) => p27::End::Panic(p),
            Ok(Ok(d)) => p27::End::Ok(d.into()),
            Ok(Err(e)) => {
                if e.is_target_error() {
                    p27::End::Err(EK::Target(e.into_target_error().map_or(0, |t| t.0)), None)
                } else if e.is_connection_error() {
                    let (c, kind) = e.into_connection_error().expect("connection error");
                    let kind = format!("{:?}", kind).to_lowercase().chars().next().unwrap_or('?');
                    let code = if c.kind() == ErrorKind::UnexpectedEof { EOF_CODE } else { c.to_string().parse().unwrap_or(u32::MAX) };
                    p27::End::Err(EK::Conn(code, kind), None)
                } else {
                    p27::End::Err(EK::Other, None)
                }
            }
        },
    };
    ARCH_LLDB.with(|x| *x.borrow_mut() = None);
    // leave no input behind, or the system drops output on the floor
    keep.shut(Shutdown::Write);
    let mut sink = vec![];
    keep.timeout(Some(Duration::from_secs(20)));
    let _ = keep.read_to_end(&mut sink);
    let _ = wr.join();
    let got = rd.join().expect("reader");
    let evs = w.borrow().log.clone();
    Some((end, got, evs))
}

pub fn sock_session(_: &'static str, seed: u64, hb: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let mut k = p27::gen(seed, hb);
    k.fail_at = None;
    k.fail_read_at = None;
    k.fail_start = None;
    // a transport that made up bytes at the end would fill an owned buffer
    // without end
    k.plan.buf.owned = false;
    let mut r = Rng::new(mix(seed, 0x313131));
    let mut st = Stats::default();
    st.sessions = 1;
    let tcp = r.chance(1, 2);
    let a = match k.plan.bits {
        16 => p27::one::<u16>(&k, true),
        32 => p27::one::<u32>(&k, true),
        _ => p27::one::<u64>(&k, true),
    };
    hb();
    let b = match (k.plan.bits, tcp) {
        (16, true) => session_on::<TcpStream, u16>(&k, &mut r, &mut st),
        (32, true) => session_on::<TcpStream, u32>(&k, &mut r, &mut st),
        (_, true) => session_on::<TcpStream, u64>(&k, &mut r, &mut st),
        (16, _) => session_on::<UnixStream, u16>(&k, &mut r, &mut st),
        (32, _) => session_on::<UnixStream, u32>(&k, &mut r, &mut st),
        (_, _) => session_on::<UnixStream, u64>(&k, &mut r, &mut st),
    };
    let Some((end, out, evs)) = b else { return (vec![], st) };
    st.bytes_in += k.input.len() as u64;
    st.bytes_out += out.len() as u64;
    st.target_calls += evs.len() as u64;
    st.note(if tcp { "tcp_sessions" } else { "unix_sessions" }, 1);
    if !out.is_empty() {
        st.distinct.insert(fnv(fnv(1, &k.input), &out));
    }
    let name = if tcp { "TcpStream" } else { "UnixStream" };
    let mut f = vec![];
    if matches!(&a.end, p27::End::Panic(m) if m.contains("runaway")) {
        // not a matter of transports
    } else if a.end != end && !matches!((&a.end, &end), (p27::End::Err(x, _), p27::End::Err(y, _)) if x == y) {
        f = bad(format!("session over {} ended with {:?} instead of {:?}\n input {}\n script {:?}", name, end, a.end, show(&k.input), k.script));
    } else if a.out != out {
        f = bad(format!("session over {} delivered [{}] instead of [{}]\n input {}", name, show(&out), show(&a.out), show(&k.input)));
    } else if a.evs != evs {
        f = bad(format!("session over {}: target calls {:?} instead of {:?}\n input {}", name, evs, a.evs, show(&k.input)));
    }
    (f, st)
}
