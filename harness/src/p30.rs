//! P30: builder and session set-up.
use crate::conn::*;
use crate::drive::*;
use crate::engine::*;
use crate::session::*;
use crate::target::*;
use crate::util::*;
use crate::wire::*;
use gdbstub::stub::{GdbStub, GdbStubBuilderError};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
enum How {
    /// supplied buffer, whole
    Buf,
    /// supplied buffer, then a size
    BufSize,
    /// a size, then a supplied buffer
    SizeBuf,
    /// a size only
    Size,
    /// neither
    Nothing,
    /// `GdbStub::new`
    New,
}

pub fn setup(_: &'static str, seed: u64, _: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let mut r = Rng::new(mix(seed, 0x30));
    let bits = *r.pick(&[16, 32, 64]);
    match bits {
        16 => case::<u16>(seed, &mut r),
        32 => case::<u32>(seed, &mut r),
        _ => case::<u64>(seed, &mut r),
    }
}

fn case<U: HU>(seed: u64, r: &mut Rng) -> (Vec<Fail>, Stats) {
    let mut st = Stats::default();
    st.sessions = 1;
    let mut plan = gen_plan("P30", seed);
    for f in [F::BP, F::SW, F::GUARD, F::HW, F::WATCH] {
        plan.cfg.set(f, r.chance(1, 2));
    }
    plan.cfg.set(F::RLE, true);
    let w = setup_world(&plan, &mut Rng::new(mix(seed, 0x5e55)));
    let c = Rc::new(RefCell::new(CLog::default()));
    c.borrow_mut().record_trace = true;
    let fail_start = if r.chance(1, 4) { Some(r.next() as u32) } else { None };
    c.borrow_mut().fail_start = fail_start;

    let hows: &[How] = if cfg!(feature = "alloc") {
        &[How::Buf, How::BufSize, How::BufSize, How::SizeBuf, How::Size, How::Nothing, How::New]
    } else {
        &[How::Buf, How::BufSize, How::BufSize, How::SizeBuf, How::Size, How::Nothing]
    };
    let how = *r.pick(hows);
    let len = match r.below(6) {
        0 => r.below(8),
        1 => r.range(8, 40),
        2 => 4096,
        _ => r.range(20, 3000),
    };
    let size = match r.below(8) {
        0 => len,
        1 => len + 1,
        2 => len.saturating_sub(1),
        3 => len + r.below(5000),
        4 => 0,
        _ => r.below(len + 1),
    };
    let fill = r.next() as u8;
    let mut store = vec![fill; len];
    let lim = match how {
        How::Buf => Ok(len),
        How::BufSize | How::SizeBuf if size > len => Err("PacketBufSizeMismatch"),
        How::BufSize | How::SizeBuf => Ok(size),
        How::Size | How::Nothing | How::New if !cfg!(feature = "alloc") => Err("MissingPacketBuffer"),
        How::Size => Ok(size),
        How::Nothing | How::New => Ok(4096),
    };
    let sw = plan.cfg.has(F::BP) && plan.cfg.has(F::SW);
    let accepted = sw || plan.cfg.has(F::GUARD);
    let mut fails = vec![];
    let ctx = format!("[{:?} buffer {} size {} sw {} guard {} set-up failure {:?}]", how, len, size, sw, plan.cfg.has(F::GUARD), fail_start);
    {
        let mut bad = |m: String| fails.push(Fail { tags: vec!["P30"], label: "setup", msg: format!("{} {}", m, ctx) });
        let res = guard(|| {
            let b = || GdbStub::<Mock<U>, Conn>::builder(Conn(c.clone()));
            match how {
                How::Buf => b().with_packet_buffer(&mut store).build(),
                How::BufSize => b().with_packet_buffer(&mut store).packet_buffer_size(size).build(),
                How::SizeBuf => b().packet_buffer_size(size).with_packet_buffer(&mut store).build(),
                How::Size => b().packet_buffer_size(size).build(),
                How::Nothing => b().build(),
                #[cfg(feature = "alloc")]
                How::New => Ok(GdbStub::new(Conn(c.clone()))),
                #[cfg(not(feature = "alloc"))]
                How::New => b().build(),
            }
        });
        st.note(
            match &lim {
                Ok(_) => "builds_accepted",
                Err(_) => "builds_refused",
            },
            1,
        );
        match (res, lim) {
            (Err(p), _) => bad(format!("builder panicked: {}", p)),
            (Ok(Err(e)), Ok(n)) => bad(format!("builder refused a buffer of {} bytes: {:?}", n, e)),
            (Ok(Ok(_)), Err(e)) => bad(format!("builder accepted what it must refuse with {}", e)),
            (Ok(Err(e)), Err(x)) => {
                let k = match e {
                    GdbStubBuilderError::MissingPacketBuffer => "MissingPacketBuffer",
                    GdbStubBuilderError::PacketBufSizeMismatch => "PacketBufSizeMismatch",
                };
                if k != x {
                    bad(format!("builder refused with {} instead of {}", k, x));
                }
                if c.borrow().starts + c.borrow().trace.len() + w.borrow().log.len() > 0 {
                    bad("builder used the connection or the target".into());
                }
                st.distinct.insert(mix(5, (len * 7919 + size) as u64));
            }
            (Ok(Ok(stub)), Ok(n)) => {
                st.distinct.insert(mix(mix(plan.cfg.0 & 0x3f, n as u64), fail_start.is_some() as u64));
                let mut s = Live::start(stub, Mock::<U>::new(w.clone()));
                judge(&mut s, &c, &w, n, accepted, fail_start, !matches!(how, How::Size | How::Nothing | How::New), r, &mut st, &mut bad);
            }
        }
    }
    // the part of the supplied buffer that was not requested stays untouched
    if matches!(how, How::BufSize | How::SizeBuf) && size < len && store[size..].iter().any(|b| *b != fill) {
        fails.push(Fail { tags: vec!["P30"], label: "setup", msg: format!("bytes beyond the requested size were written {}", ctx) });
    }
    if matches!(how, How::BufSize | How::SizeBuf) && size < len {
        st.note("buffer_tails_checked", 1);
    }
    ARCH_LLDB.with(|x| *x.borrow_mut() = None);
    (fails, st)
}

#[allow(clippy::too_many_arguments)]
fn judge(
    s: &mut dyn Sess,
    c: &Rc<RefCell<CLog>>,
    w: &Shared,
    n: usize,
    accepted: bool,
    fail_start: Option<u32>,
    fixed: bool,
    r: &mut Rng,
    st: &mut Stats,
    bad: &mut dyn FnMut(String),
) {
    let used = |c: &Rc<RefCell<CLog>>| {
        let l = c.borrow();
        (l.starts, l.trace.len() - l.starts)
    };
    if !accepted {
        st.note("targets_refused", 1);
        match s.st() {
            St::Err(e) if e.kind == EK::Other && e.bad.is_none() => {}
            x => bad(format!("a target without software breakpoints and without opt-in was not refused: {:?}", x)),
        }
        if used(c) != (0, 0) {
            bad(format!("the connection was used although the session is refused: {}", show(&c.borrow().trace)));
        }
        return;
    }
    st.note("targets_accepted", 1);
    if let Some(code) = fail_start {
        match s.st() {
            St::Err(e) if e.kind == EK::Conn(code, 'i') && e.bad.is_none() => {}
            x => bad(format!("failed connection set-up was reported as {:?}", x)),
        }
        if used(c) != (1, 0) {
            bad(format!("connection operations around the failed set-up: {}", show(&c.borrow().trace)));
        }
        st.note("setup_failures", 1);
        return;
    }
    if *s.st() != St::Idle {
        return bad(format!("session starts in state {:?}", s.st()));
    }
    if used(c) != (1, 0) {
        return bad(format!("connection operations before any client input: {}", show(&c.borrow().trace)));
    }
    let send = |s: &mut dyn Sess, b: &[u8]| -> Vec<Vec<u8>> {
        let at = c.borrow().out.len();
        for x in frame(b) {
            if !matches!(s.st(), St::Idle | St::Running) {
                break;
            }
            s.feed(x);
        }
        parse_tx(&c.borrow().out[at..], true)
            .items
            .into_iter()
            .filter_map(|i| match i {
                Item::Pkt { dec, .. } => Some(dec),
                _ => None,
            })
            .collect()
    };
    // what is advertised is what was requested, less the framing
    if n >= 20 && c.borrow().starts == 1 {
        let q = send(s, b"qSupported:a+");
        if let Some(f) = q.first() {
            let t = String::from_utf8_lossy(f).into_owned();
            let v = t.split(';').find_map(|x| x.strip_prefix("PacketSize=")).and_then(|x| usize::from_str_radix(x, 16).ok());
            if v != Some(n - 4) {
                bad(format!("a packet buffer of {} bytes is advertised as {:?} in {}", n, v, show(f)));
            }
            st.note("sizes_advertised", 1);
        } else {
            bad(format!("qSupported unanswered, state {:?}", s.st()));
        }
    }
    if fixed {
        // exactly that size is used: a packet of that size fits, a longer one does not
        let fits = n.checked_sub(4);
        if let Some(k) = fits {
            let b = vec![b'~'; k];
            let a = send(s, &b);
            if a != vec![Vec::<u8>::new()] || *s.st() != St::Idle {
                bad(format!("a packet of exactly {} bytes was not accepted: {:?}, state {:?}", n, a, s.st()));
                return;
            }
            st.note("full_size_packets", 1);
        }
        let over = n + r.below(5) + 1;
        let o0 = c.borrow().out.len();
        let b = vec![b'~'; over];
        send(s, &b);
        if !matches!(s.st(), St::Err(e) if e.kind == EK::Other) || c.borrow().out.len() != o0 {
            bad(format!("a packet body of {} bytes did not overflow a buffer of {}: {:?}", over, n, s.st()));
        }
        st.note("oversized_packets", 1);
    }
    if c.borrow().starts != 1 {
        bad(format!("connection set-up ran {} times", c.borrow().starts));
    }
    let _ = w;
}
