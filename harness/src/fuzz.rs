//! Raw client bytes against an independent receiver: no model of what the
//! answers mean, only of when there must be one.
use crate::drive::*;
use crate::engine::*;
use crate::gens::*;
use crate::session::*;
use crate::stream;
use crate::target::*;
use crate::util::*;
use crate::wire::*;

pub fn plan(prop: &'static str, seed: u64) -> Plan {
    let mut p = gen_plan(prop, seed);
    let mut r = Rng::new(mix(seed, 0xf022));
    p.raw = true;
    p.steps = 0;
    if r.chance(1, 3) {
        p.steps = r.below(6);
    } else {
        // any buffer will do
        p.buf.len = match r.below(4) {
            0 => r.below(8),
            1 => r.below(40),
            2 => r.below(120),
            _ => p.buf.len,
        };
        p.buf.fill = r.next() as u8;
        p.fault = *r.pick(&[0, 0, 10, 40]);
    }
    p
}

#[derive(PartialEq, Debug)]
enum Rx {
    Ready,
    Body(Vec<u8>),
    Ck(Vec<u8>, Option<u8>),
}

pub fn world(x: &mut Ctx) {
    let mut r = x.r.clone();
    gen_tps(x);
    for _ in 0..3 {
        let l = rand_lreg(x);
        let id = r.below(8);
        x.world().lregs.insert(id, LReg::Reg(l));
    }
    let bits = x.m.bits;
    let mut w = x.w.borrow_mut();
    let hole = 0x400 + r.num(12);
    w.mem.hole = Some((hole, u64::MAX));
    w.mem.style = r.below(5) as u8;
    w.mem.hole_err = if r.chance(1, 2) { Some(FailKind::Errno(14)) } else { None };
    for i in 0..5 {
        let n = *r.pick(if cfg!(miri) { &[0, 1, 30, 100] } else { &[0, 1, 30, 500, 5000][..] });
        w.objs[i] = r.payload(n);
    }
    w.hfd = r.next() as u32;
    let n = r.below(300);
    w.hdata = r.payload(n);
    w.hret = r.num(bits.min(32));
    let n = r.below(40);
    w.reg_val = r.payload(n);
    w.extra = r.payload(n);
    w.kill_yes = r.chance(1, 2);
    w.bp_ok = r.chance(2, 3);
    for _ in 0..r.below(4) {
        let n = r.below(50);
        let b = r.payload(n);
        let op = if r.chance(1, 3) { MonOp::Flush } else { MonOp::Raw(b) };
        // unbuffered, an empty write is an empty packet
        if !(no_alloc() && matches!(&op, MonOp::Raw(b) if b.is_empty())) {
            w.mon.push(op);
        }
    }
    let n = *r.pick(if cfg!(miri) { &[0, 10, 100] } else { &[0, 10, 400, 5000][..] });
    w.tbuf = r.payload(n);
    w.tbuf_chunks = 1 + r.below(3);
    w.frame = (0..r.below(3)).map(|_| (r.chance(1, 2), r.num(40))).collect();
    w.tstatus = match r.below(5) {
        0 => None,
        1 => Some(TStatus::Running),
        2 => Some(TStatus::Stop(Some(r.payload(20)))),
        3 => Some(TStatus::Error(r.payload(20), 3)),
        _ => Some(TStatus::Unknown),
    };
    w.tinfo = vec![TInfo::Frames(3), TInfo::Other("x:1".into())];
    w.offsets = (r.chance(1, 2), r.num(bits), r.num(bits), if r.chance(1, 2) { Some(r.num(bits)) } else { None });
}

/// What one byte must lead to.
#[derive(Debug, PartialEq)]
enum Must {
    Nothing,
    CtrlC,
    Error,
    /// a complete, valid packet
    Command(Vec<u8>),
}

fn receive(rx: &mut Rx, b: u8, room: Option<usize>) -> Must {
    // every byte of a packet, framing included, must fit
    let used = match rx {
        Rx::Ready => 0,
        Rx::Body(v) => 1 + v.len(),
        Rx::Ck(v, None) => 2 + v.len(),
        Rx::Ck(v, Some(_)) => 3 + v.len(),
    };
    if room.map_or(false, |l| used >= l) {
        return Must::Error;
    }
    let old = std::mem::replace(rx, Rx::Ready);
    match old {
        Rx::Ready => match b {
            b'$' => {
                *rx = Rx::Body(vec![]);
                Must::Nothing
            }
            b'+' => Must::Nothing,
            3 => Must::CtrlC,
            _ => Must::Error,
        },
        Rx::Body(mut v) => {
            *rx = if b == b'#' {
                Rx::Ck(v, None)
            } else {
                v.push(b);
                Rx::Body(v)
            };
            Must::Nothing
        }
        Rx::Ck(v, None) => {
            *rx = Rx::Ck(v, Some(b));
            Must::Nothing
        }
        Rx::Ck(v, Some(a)) => {
            let d = |c: u8| (c as char).to_digit(16);
            let sum = v.iter().fold(0u8, |s, c| s.wrapping_add(*c)) as u32;
            match (d(a), d(b)) {
                (Some(h), Some(l)) if h * 16 + l == sum => Must::Command(v),
                _ => Must::Error,
            }
        }
    }
}

pub fn script(x: &mut Ctx) {
    let mut r = Rng::new(mix(x.r.next(), 77));
    world(x);
    let clean = r.chance(2, 3);
    // a borrowed buffer never grows
    let room = if x.m.owned { None } else { Some(x.m.buflen) };
    let mut rx = Rx::Ready;
    let mut noack = x.m.noack;
    let total = r.range(1, if cfg!(miri) { 25 } else { 60 });
    let mut pieces = 0;
    let mut queue: std::collections::VecDeque<u8> = Default::default();
    let rle_on = x.m.has(F::RLE);
    let mut hist: Vec<u8> = vec![];
    let pos0 = x.c.borrow().out.len();
    let fail = |x: &mut Ctx, tags: &[&'static str], m: String, hist: &[u8]| {
        let h = if hist.len() > 1200 { &hist[hist.len() - 1200..] } else { hist };
        x.fail(tags.to_vec(), "raw", format!("{}\n  client sent ..{}", m, show(h)));
    };
    loop {
        if let Some(h) = x.heartbeat {
            h()
        }
        let before = x.s.st().clone();
        let o0 = x.c.borrow().out.len();
        x.w.borrow_mut().log.clear();
        let st0 = before.clone();
        let (must, what): (Must, &'static str) = match before {
            St::Idle | St::Running if before == St::Running && queue.is_empty() && r.chance(3, 4) => {
                // the target stops; never in the middle of a packet only
                // because most clients don't send then
                let s = stream::stop(&mut r);
                hist.extend_from_slice(format!("<{:?}>", s.sr).as_bytes());
                x.s.stop(&s);
                (Must::Nothing, "stop")
            }
            St::Idle | St::Running => {
                if queue.is_empty() {
                    if pieces >= total {
                        break;
                    }
                    pieces += 1;
                    queue.extend(stream::piece(&mut r, clean));
                    if r.chance(1, 10) {
                        // nothing at all
                        continue;
                    }
                    if x.fault > 0 && r.chance(x.fault, 100) {
                        let op = *r.pick(&[
                            "read_addrs", "write_addrs", "read_regs", "write_regs", "mt_resume", "st_resume", "list_threads", "xfer", "hio", "mt_clear", "mt_cont",
                        ]);
                        let mut k = *r.pick(&[FailKind::NonFatal, FailKind::Errno(7), FailKind::IoKind(0), FailKind::Fatal(9)]);
                    if no_std_errors() && k == FailKind::IoKind(0) {
                        k = FailKind::NonFatal;
                    }
                        x.inject(op, r.below(2), k);
                    }
                }
                let Some(b) = queue.pop_front() else { continue };
                hist.push(b);
                let m = receive(&mut rx, b, room);
                x.stat.bytes_in += 1;
                x.s.feed(b);
                (m, "byte")
            }
            St::CtrlC => {
                let s = if r.chance(1, 2) { Some(stream::stop(&mut r)) } else { None };
                hist.extend_from_slice(format!("<int {:?}>", s).as_bytes());
                x.s.int_handled(s.as_ref());
                (Must::Nothing, "int")
            }
            St::Disc(_) => {
                if r.chance(1, 4) {
                    break;
                }
                hist.extend_from_slice(b"<revive>");
                x.s.to_idle();
                (Must::Nothing, "revive")
            }
            St::Err(_) | St::Panic(_) => break,
        };
        let st = x.s.st().clone();
        let evs = std::mem::take(&mut x.w.borrow_mut().log);
        let new: Vec<u8> = x.c.borrow().out[o0..].to_vec();
        x.stat.events += evs.len() as u64;
        if x.recs.is_some() && !(what == "byte" && must == Must::Nothing && new.is_empty() && evs.is_empty() && st == st0) {
            let flushed = x.c.borrow().flushes.last().copied().unwrap_or(0);
            let dec = packets(&new, rle_on);
            let input = match &must {
                Must::Command(b) => b.clone(),
                _ => vec![hist.len() as u8],
            };
            let rec = Rec { input, label: what, out: new.clone(), dec, flushed, evs: evs.clone(), st: st.clone() };
            x.recs.as_mut().unwrap().push(rec);
        }
        if let St::Panic(m) = &st {
            fail(x, &["P03"], format!("panic: {}", m), &hist);
            return;
        }
        if let St::Err(e) = &st {
            if let Some(b) = &e.bad {
                fail(x, &["P18"], b.clone(), &hist);
                return;
            }
        }
        let is_err = matches!(st, St::Err(_));
        if what != "byte" {
            if what == "revive" && (!new.is_empty() || st != St::Idle) {
                fail(x, &["P26", "P01"], format!("returning to idle: state {:?}, sent [{}]", st, show(&new)), &hist);
                return;
            }
            if what == "int" && !new.is_empty() && !is_err && !matches!(st, St::Idle | St::Disc(_)) {
                fail(x, &["P15", "P01"], format!("answer to an interrupt in state {:?}: [{}]", st, show(&new)), &hist);
                return;
            }
            let p = parse_tx(&new, rle_on);
            let n = p.items.len();
            x.stat.packets += n as u64;
            if !p.errs.is_empty() || (!p.partial.is_empty() && !is_err) || n > 1 || p.items.contains(&Item::Ack) {
                fail(x, &["P01"], format!("{}: state {:?}, sent [{}] {:?}", what, st, show(&new), p.errs), &hist);
                return;
            }
            if what == "stop" && n != 1 && !is_err {
                fail(x, &["P14", "P01"], format!("stop report answered by {} packets, state {:?}", n, st), &hist);
                return;
            }
        } else {
            match &must {
                Must::Nothing => {
                    if st != st0 || !new.is_empty() || !evs.is_empty() {
                        fail(
                            x,
                            &["P04", "P01", "P06"],
                            format!("byte within or between packets: state {:?} -> {:?}, sent [{}], calls {:?}", st0, st, show(&new), evs),
                            &hist,
                        );
                        return;
                    }
                }
                Must::CtrlC => {
                    x.stat.note("interrupts", 1);
                    if st != St::CtrlC || !new.is_empty() || !evs.is_empty() {
                        fail(x, &["P15", "P01"], format!("interrupt byte: state {:?}, sent [{}], calls {:?}", st, show(&new), evs), &hist);
                        return;
                    }
                }
                Must::Error => {
                    x.stat.note("rejected_inputs", 1);
                    let ok = matches!(&st, St::Err(e) if e.kind == EK::Other);
                    if !ok || !new.is_empty() || !evs.is_empty() {
                        fail(
                            x,
                            &["P04"],
                            format!("invalid or oversized input was not refused: state {:?}, sent [{}], calls {:?}", st, show(&new), evs),
                            &hist,
                        );
                        return;
                    }
                }
                Must::Command(body) => {
                    x.stat.steps += 1;
                    let p = parse_tx(&new, rle_on);
                    if !p.errs.is_empty() || (!p.partial.is_empty() && !is_err) {
                        fail(x, &["P01", "P02"], format!("malformed transmission [{}] {:?}", show(&new), p.errs), &hist);
                        return;
                    }
                    x.stat.rle_runs += p.rle_runs as u64;
                    let acks = p.items.iter().filter(|i| **i == Item::Ack).count();
                    x.stat.acks += acks as u64;
                    let want = if noack { 0 } else { 1 };
                    let first = want == 0 || acks == 0 || p.items[0] == Item::Ack;
                    if !first || (if is_err { acks > want } else { acks != want }) {
                        fail(x, &["P05", "P01"], format!("{} acknowledgements (no-ack: {}) in [{}] for {}", acks, noack, show(&new), show(body)), &hist);
                        return;
                    }
                    let pk: Vec<&Vec<u8>> = p.items.iter().filter_map(|i| if let Item::Pkt { dec, .. } = i { Some(dec) } else { None }).collect();
                    x.stat.packets += pk.len() as u64;
                    // resume requests to a target that cannot resume get a
                    // diagnostic
                    let diag = !x.m.has(F::RESUME) && matches!(body.first(), Some(b'c' | b's' | b'C' | b'S' | b'v'));
                    let last = if (body.starts_with(b"qRcmd") || diag) && pk.len() > 1 {
                        if !pk[..pk.len() - 1].iter().all(|p| p.len() > 1 && p[0] == b'O' && unhex(&p[1..]).is_some()) {
                            fail(x, &["P01", "P22"], format!("console output malformed: [{}]", show(&new)), &hist);
                            return;
                        }
                        1
                    } else {
                        pk.len()
                    };
                    let ok = match &st {
                        // a restart has no reply
                        St::Idle => last == if evs.iter().any(|e| e.op == "restart") { 0 } else { 1 },
                        St::Running => {
                            if st0 == St::Running {
                                last <= 1
                            } else {
                                last == 0
                            }
                        }
                        St::Disc(Why::Kill) => last <= 1,
                        St::Disc(_) => last == 1,
                        // an error ends the session; nothing complete may be
                        // sent by the command that failed, console output aside
                        St::Err(_) => last == 0 || body.starts_with(b"qRcmd") || evs.iter().any(|e| e.op.contains("resume")),
                        St::CtrlC => false,
                        St::Panic(_) => false,
                    };
                    if !ok {
                        fail(x, &["P01"], format!("command {} left state {:?} after {} replies [{}]", show(body), st, last, show(&new)), &hist);
                        return;
                    }
                    if let St::Err(e) = &st {
                        if matches!(e.kind, EK::Conn(..)) {
                            fail(x, &["P18"], "connection error out of nowhere".into(), &hist);
                            return;
                        }
                    }
                    if body == b"QStartNoAckMode" && x.m.has(F::NOACK) && pk.first().map_or(false, |p| *p == b"OK") {
                        noack = true;
                    }
                    if x.stat.distinct.len() < DISTINCT_CAP {
                        x.stat.distinct.insert(fnv(fnv(fnv(1, body), &new), format!("{:?}{:?}", evs, st).as_bytes()));
                    }
                }
            }
        }
        if !new.is_empty() && !is_err {
            let l = x.c.borrow();
            if l.flushes.last() != Some(&l.out.len()) {
                drop(l);
                fail(x, &["P05"], format!("output [{}] was not flushed", show(&new)), &hist);
                return;
            }
        }
    }
    let st = x.s.st().clone();
    x.stat.bytes_out += (x.c.borrow().out.len() - pos0) as u64;
    let e = match st {
        St::Err(e) => format!("{:?}", e.kind).split('(').next().unwrap_or("").to_string(),
        s => format!("{:?}", s).split('(').next().unwrap_or("").to_string(),
    };
    *x.stat.ends.entry(e).or_default() += 1;
}

fn packets(out: &[u8], rle: bool) -> Vec<Vec<u8>> {
    parse_tx(out, rle).items.into_iter().filter_map(|i| if let Item::Pkt { dec, .. } = i { Some(dec) } else { None }).collect()
}

pub fn raw(prop: &'static str, seed: u64, hb: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let p = plan(prop, seed);
    let o = run_plan(&p, hb);
    (o.fails, o.stat)
}
