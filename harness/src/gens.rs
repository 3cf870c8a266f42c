//! Command families: every function drives one or more steps of a session and
//! states what must be observed.
use crate::drive::*;
use crate::engine::*;
use crate::target::*;
use crate::util::*;
use crate::wire::*;

// ------------------------------------------------------------ helpers

/// number as the stub prints it
pub fn num(v: u64) -> String {
    let s = format!("{:x}", v);
    if s.len() % 2 == 1 {
        format!("0{}", s)
    } else {
        s
    }
}
/// number as a client may print it
pub fn hx(r: &mut Rng, v: u64) -> String {
    let mut s = format!("{:x}", v);
    if r.chance(1, 5) {
        let z = r.below(16usize.saturating_sub(s.len()) + 1);
        s = "0".repeat(z) + &s;
    }
    if r.chance(1, 4) {
        s = s.to_uppercase();
    }
    s
}
/// hex data as a client may print it
pub fn hxb(r: &mut Rng, b: &[u8]) -> String {
    let s = hex(b);
    if r.chance(1, 4) {
        s.to_uppercase()
    } else {
        s
    }
}
/// client side binary escaping, sometimes escaping more than necessary
pub fn esc(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    if !r.chance(1, 3) {
        return escape(b);
    }
    let mut v = vec![];
    for x in b {
        let y = x ^ 0x20;
        let must = matches!(x, b'#' | b'$' | b'}' | b'*');
        if must || (!matches!(y, b'#' | b'$' | b'}' | b'*') && r.chance(1, 4)) {
            v.push(b'}');
            v.push(y);
        } else {
            v.push(*x);
        }
    }
    v
}

impl<'s> Ctx<'s> {
    pub fn has(&self, f: F) -> bool {
        self.m.cfg.has(f)
    }
    pub fn go(&mut self, mut s: Step) -> bool {
        // the neighbours of hex digits are no digits either
        if let (Input::Cmd(b), true) = (&mut s.input, matches!(s.st, XS::Reject)) {
            if let Some(i) = b.windows(2).position(|w| w == b"zz") {
                if self.r.chance(1, 2) {
                    let c = *self.r.pick(b"GgzZ@`");
                    b[i] = c;
                    b[i + 1] = *self.r.pick(&[c, b'0', b'f']);
                }
            }
        }
        if let Input::Cmd(b) = &s.input {
            if b.len() > self.m.limit {
                self.stat.note("skipped_too_long", 1);
                self.w.borrow_mut().fails.clear();
                return false;
            }
        }
        let r = self.exec(s);
        self.w.borrow_mut().fails.clear();
        r
    }
    /// judge something after the step
    pub fn post(&mut self, tags: &[&'static str], label: &'static str, r: Result<(), String>) -> bool {
        if let Err(e) = r {
            if !self.dead || self.fails.is_empty() {
                self.fail(tags.to_vec(), label, e);
            }
            return false;
        }
        true
    }
    /// amount of data: mostly small, sometimes up to `max`
    pub fn amount(&mut self, max: usize) -> usize {
        let max = if self.m.small { max.min(12) } else { max };
        match self.r.below(6) {
            0 => 0,
            1 => self.r.below(max.min(4) + 1),
            2 => self.r.below(max + 1),
            3 => max,
            _ => self.r.below(max.min(48) + 1),
        }
    }
    pub fn payload(&mut self, max: usize) -> Vec<u8> {
        let n = self.amount(max);
        self.r.payload(n)
    }
    pub fn addr(&mut self) -> u64 {
        let b = self.m.bits;
        self.r.num(b)
    }
    /// hex text of a value that doesn't fit the address width
    pub fn wide(&mut self) -> String {
        let bits = self.m.bits;
        // one to three bytes too many, any one of them not zero, led by zeros or not
        let extra = 1 + self.r.below(3);
        let mut hi = vec![0u8; extra];
        let k = self.r.below(extra);
        hi[k] = 1 + self.r.below(255) as u8;
        for h in hi.iter_mut() {
            if *h == 0 && self.r.chance(1, 3) {
                *h = self.r.next() as u8
            }
        }
        let mut s: String = hi.iter().map(|b| format!("{:02x}", b)).collect();
        let low = self.r.num(bits);
        s.push_str(&format!("{:0w$x}", low, w = bits as usize / 4));
        if self.r.chance(1, 2) {
            s = s.trim_start_matches('0').to_string();
        }
        s
    }
    pub fn pid(&self) -> u64 {
        if self.has(F::EXT) && self.has(F::EPID) {
            self.w.borrow().pid as u64
        } else {
            1
        }
    }
    /// thread id as the stub must print it
    pub fn tid_reply(&self, tid: u64) -> String {
        if self.m.multiproc {
            format!("p{}.{}", num(self.pid()), num(tid))
        } else {
            num(tid)
        }
    }
    /// thread id as a client may send it
    pub fn tid_sent(&mut self, tid: u64) -> String {
        let t = hx(&mut self.r, tid);
        if self.r.chance(if self.m.multiproc { 3 } else { 1 }, 4) {
            let p = self.pid();
            let p = match self.r.below(8) {
                0 => self.r.num(63) + 1,
                _ => p,
            };
            format!("p{}.{}", hx(&mut self.r, p), t)
        } else {
            t
        }
    }
    pub fn live(&self) -> Vec<i64> {
        if !self.m.multi() {
            return vec![1];
        }
        self.w.borrow().threads.iter().map(|t| *t as i64).collect()
    }
    pub fn some_tid(&mut self) -> u64 {
        if !self.m.multi() {
            return 1;
        }
        let l = self.live();
        if l.is_empty() || self.r.chance(1, 10) {
            (self.r.num(63)).max(1)
        } else {
            *self.r.pick(&l) as u64
        }
    }
    pub fn fmode(&mut self) -> bool {
        self.fault > 0
    }
}

fn bad(c: &mut Ctx) -> bool {
    // requests that end the session are kept rare
    c.r.chance(1, 24)
}

// ------------------------------------------------------------ memory

pub fn mem_read(c: &mut Ctx) {
    let fam = &["P07"];
    if bad(c) {
        let a = c.addr();
        let body = match c.r.below(6) {
            0 => format!("m{},4", c.wide()),
            1 => format!("m{:x}", a),
            2 => format!("m{:x},", a),
            3 => format!("mzz{:x},4", a),
            4 => format!("m{:x},4g", a),
            _ => format!("m{:x},1{:016x}", a, a),
        };
        c.go(Step::cmd("m-malformed", fam, body).reject());
        return;
    }
    let max = c.m.max_addr();
    let a = match c.r.below(4) {
        0 => max - c.r.below(600) as u64,
        _ => c.addr(),
    };
    let buf = c.m.buflen;
    let huge;
    let mut l: u64 = match c.r.below(8) {
        0 => c.r.below(4) as u64,
        1 => (buf.min(3000) + c.r.below(40)) as u64,
        2 => (buf.min(3000) as u64) * 2 + c.r.below(900) as u64,
        3 => c.r.below(2500) as u64,
        _ => c.r.below(80) as u64,
    };
    if c.m.small {
        l = l.min(12);
    }
    huge = !c.m.small && c.r.chance(1, 10);
    if huge {
        l = match c.r.below(4) {
            0 => u64::MAX,
            1 => u32::MAX as u64,
            2 => 70_000,
            _ => c.r.next(),
        };
    }
    // memory layout
    {
        let s = c.r.next();
        let style = if c.r.chance(1, 2) { 0 } else { c.r.below(5) as u8 };
        let span = if huge { 6000 } else { l.max(1) };
        let hole = match c.r.below(if huge { 2 } else { 6 }) {
            0 | 1 => {
                let lo = a.saturating_add(c.r.next() % span);
                let len = match c.r.below(4) {
                    0 => 1,
                    1 => c.r.below(40) as u64,
                    _ => u64::MAX,
                };
                let lo = if huge { lo.min(a.saturating_add(6000)) } else { lo };
                Some((lo.min(max), lo.saturating_add(if huge { u64::MAX } else { len }).min(max)))
            }
            _ => None,
        };
        let hole_err = match c.r.below(4) {
            0 => None,
            1 => Some(FailKind::NonFatal),
            2 => Some(FailKind::Errno(c.r.next() as u8)),
            _ => Some(FailKind::IoRaw(14)),
        };
        let cap = if c.r.chance(1, 5) { Some(c.r.range(1, 200)) } else { None };
        let mut w = c.w.borrow_mut();
        w.mem = Mem { seed: s, style, hole, hole_err, cap };
    }
    let mut inj: Option<(usize, FailKind)> = None;
    if c.fmode() && c.r.chance(c.fault, 100) {
        let k = match c.r.below(4) {
            0 => FailKind::Fatal(c.r.next() as u32),
            1 => FailKind::NonFatal,
            2 => FailKind::IoRaw(5),
            _ => FailKind::Errno(c.r.next() as u8),
        };
        let skip = c.r.below(3);
        c.inject("read_addrs", skip, k);
        inj = Some((skip, k));
    }
    let mem = c.w.borrow().mem.clone();
    let cands = if c.m.multi() { c.m.mem.clone() } else { vec![0] };
    let body = format!("m{},{}", hx(&mut c.r, a), hx(&mut c.r, l));
    if body.len() > c.m.limit {
        c.w.borrow_mut().fails.clear();
        return;
    }
    let before = c.stat.steps;
    let mut st = Step::cmd("m", fam, body).tag("P11").st(XS::Any);
    st.ev = XE::Any;
    st.pk = XP::Any;
    c.go(st);
    if c.stat.steps == before || !c.fails.is_empty() {
        return;
    }
    let evs = c.last_evs.clone();
    let pk = c.last_pk.clone();
    let state = c.s.st().clone();
    let mut k = 0u64; // contiguous bytes supplied
    let mut err: Option<FailKind> = None;
    let mut stopped = false;
    let mut expect: Vec<u8> = vec![];
    let mut tid: Option<i64> = None;
    let r: Result<(), (&'static str, String)> = (|| {
        for (i, e) in evs.iter().enumerate() {
            if e.op != "read_addrs" {
                return Err(("P07", format!("unexpected target call {:?}", e)));
            }
            if !cands.contains(&e.t) || tid.map_or(false, |t| t != e.t) {
                return Err(("P11", format!("memory read went to thread {:x}, selected: {:x?}", e.t, cands)));
            }
            tid = Some(e.t);
            let (ea, el, en) = (e.n[0], e.n[1], e.n[2]);
            if err.is_some() {
                return Err(("P07", "target read again after it reported an error".into()));
            }
            let first = (a as u128) + k as u128;
            if el == 0 && l > k {
                return Err(("P07", "zero-length read issued".into()));
            }
            if ea as u128 != first {
                return Err((
                    "P07",
                    format!("read at {:#x}, the next byte of the requested range is {:#x}", ea, first),
                ));
            }
            if k + el > l {
                return Err(("P07", format!("read of {:#x} bytes at {:#x} exceeds the requested range", el, ea)));
            }
            for j in 0..en {
                expect.push(mem.byte(ea + j, e.t));
            }
            k += en;
            if en < el {
                stopped = true;
            }
            if let Some((skip, kind)) = inj {
                if skip == i {
                    err = Some(kind);
                    continue;
                }
            }
            if el > 0 && !mem.readable(ea) {
                err = mem.hole_err;
            }
        }
        let at_end = k > 0 && (a as u128 + k as u128) > max as u128;
        if !stopped && err.is_none() && k != l && !at_end {
            return Err(("P07", format!("only {:#x} of {:#x} bytes were read although the target supplied everything asked for", k, l)));
        }
        if let Some(FailKind::Fatal(code)) = err {
            return match &state {
                St::Err(e) if e.kind == EK::Target(code) => Ok(()),
                s => Err(("P18", format!("fatal target error during a memory read: got {:?}", s))),
            };
        }
        if state != St::Idle {
            return Err(("P07", format!("memory read ended the session: {:?}", state)));
        }
        if pk.len() != 1 {
            return Err(("P01", format!("{} reply packets", pk.len())));
        }
        let p = &pk[0];
        if k > 0 {
            let h = hex(&expect).into_bytes();
            if *p != h {
                return Err((
                    "P07",
                    format!("reply [{}] is not the {:#x} bytes the target supplied [{}]", show(p), k, show(&h)),
                ));
            }
        } else if let Some(e) = err {
            let x = format!("E{:02x}", e.code().unwrap()).into_bytes();
            if *p != x {
                return Err(("P07", format!("expected error {:?}, got [{}]", show(&x), show(p))));
            }
        } else if l == 0 {
            if !p.is_empty() {
                return Err(("P07", format!("zero-length read answered with [{}]", show(p))));
            }
        } else if !(p.is_empty() || is_err(p)) {
            return Err(("P07", format!("no data supplied but got [{}]", show(p))));
        }
        Ok(())
    })();
    if let Some(t) = tid {
        if c.m.multi() {
            c.m.mem = vec![t];
        }
    }
    c.stat.note("mem_bytes_checked", k);
    if evs.len() > 1 {
        c.stat.note("mem_multi_chunk_reads", 1);
    }
    if stopped {
        c.stat.note("mem_short_reads", 1);
    }
    if let Err((t, e)) = r {
        let mut tags = vec![t, "P07"];
        if k > 0 && err.is_some() {
            tags.push("P01");
        }
        tags.dedup();
        c.fail(tags, "m", e);
    }
}

pub fn mem_write(c: &mut Ctx) {
    let fam = &["P08"];
    let bin = c.r.chance(1, 2);
    let a = c.addr();
    let room = c.m.limit.saturating_sub(24) / 2;
    let mut data = c.payload(room.min(900));
    if data.is_empty() && !c.r.chance(1, 4) {
        data.push(c.r.next() as u8)
    }
    let n = data.len() as u64;
    let hd = |bin: bool| if bin { "X" } else { "M" };
    if bad(c) {
        let body: Vec<u8> = match c.r.below(5) {
            0 => {
                let w = c.wide();
                let mut v = format!("{}{},{:x}:", hd(bin), w, n).into_bytes();
                if bin {
                    v.extend(escape(&data))
                } else {
                    v.extend(hex(&data).bytes())
                }
                v
            }
            1 => format!("{}{:x},{:x}", hd(bin), a, n).into_bytes(),
            2 => format!("{}{:x}", hd(bin), a).into_bytes(),
            3 if bin => format!("X{:x},2:a}}", a).into_bytes(),
            3 => format!("M{:x},2:0g00", a).into_bytes(),
            _ => format!("{}zy{:x},1:00", hd(bin), a).into_bytes(),
        };
        let s = Step::cmd("M/X-malformed", fam, body);
        if bin && !c.has(F::XUP) {
            c.go(s.tag("P17"));
        } else {
            c.go(s.reject());
        }
        return;
    }
    let mut body = format!("{}{},{}:", hd(bin), hx(&mut c.r, a), hx(&mut c.r, n)).into_bytes();
    if bin {
        body.extend(esc(&mut c.r, &data))
    } else {
        body.extend(hxb(&mut c.r, &data).bytes())
    }
    if bin && !c.has(F::XUP) {
        c.go(Step::cmd("X-optout", fam, body).tag("P17"));
        return;
    }
    let t = c.m.memt();
    let e = ev("write_addrs").t(t).n(a).b(&data);
    let s = Step::cmd(if bin { "X" } else { "M" }, fam, body).ok().ev(e);
    let s = match c.draw_fault("write_addrs", false) {
        Some(k) => s.fault(k),
        None => s,
    };
    c.go(s);
}

// ------------------------------------------------------------ registers

pub fn regs_text(r: &[Option<u8>]) -> String {
    r.iter().map(|b| b.map_or("xx".to_string(), |b| format!("{:02x}", b))).collect()
}

pub fn regs_all(c: &mut Ctx) {
    let fam = &["P09"];
    if c.r.chance(1, 2) {
        let n = c.amount(300);
        {
            let style = c.r.below(5) as u8;
            let mut w = c.w.borrow_mut();
            w.reg_len = n;
            w.reg_style = style;
        }
        let w = c.w.clone();
        let s = Step::cmd("g", fam, "g").ev(ev("read_regs").t(c.m.memt()));
        let s = match c.draw_fault("read_regs", false) {
            Some(k) => s.fault(k),
            None => s.replyf(move |e, p| {
                let x = regs_text(&w.borrow().regs(e[0].t));
                if x.as_bytes() == p {
                    Ok(())
                } else {
                    Err(format!("registers [{}] reported as [{}]", x, show(p)))
                }
            }),
        };
        c.go(s);
    } else {
        let room = (c.m.limit.saturating_sub(8) / 2).min(REGS_MAX);
        let mut d = c.payload(room);
        let t = c.m.memt();
        if bad(c) {
            let s = if c.r.chance(1, 2) {
                if d.len() % 2 == 0 {
                    d.push(1)
                }
                Step::cmd("G-mismatch", fam, format!("G{}", hex(&d)))
            } else {
                Step::cmd("G-malformed", fam, format!("G{}zz", hex(&d)))
            };
            c.go(s.reject());
            return;
        }
        if d.len() % 2 == 1 {
            d.pop();
        }
        let s = Step::cmd("G", fam, format!("G{}", hxb(&mut c.r, &d))).ok().ev(ev("write_regs").t(t).b(&d));
        let s = match c.draw_fault("write_regs", false) {
            Some(k) => s.fault(k),
            None => s,
        };
        c.go(s);
    }
}

pub fn regs_one(c: &mut Ctx) {
    let fam = &["P09"];
    let id: usize = match c.r.below(8) {
        0 => c.r.range(32, 47),
        1 => c.r.range(48, 63),
        2 => *c.r.pick(&[0x1000, 0x100f, 0x1010, 0x1011, 0xfff, usize::MAX, usize::MAX - 1, 64, 65536]),
        3 => c.r.next() as usize,
        _ => c.r.below(32),
    };
    let t = c.m.memt();
    let supp = c.has(F::SREG);
    let it = hx(&mut c.r, id as u64);
    if c.r.chance(1, 2) {
        // P
        let room = c.m.limit.saturating_sub(20) / 2;
        let mut v = c.payload(room.min(300));
        if v.is_empty() {
            v.push(7)
        }
        if supp && bad(c) {
            let b = match c.r.below(3) {
                0 => format!("P{:x}", id),
                1 => format!("P={}", hex(&v)),
                _ => format!("P{:x}=zz{}", id, hex(&v)),
            };
            c.go(Step::cmd("P-malformed", fam, b).reject());
            return;
        }
        let s = Step::cmd("P", fam, format!("P{}={}", it, hxb(&mut c.r, &v)));
        if !supp {
            c.go(s.tag("P17"));
        } else if reg_size(id).is_none() {
            c.go(s);
        } else {
            let s = s.ok().ev(ev("write_reg").t(t).n(id as u64).b(&v));
            let s = match c.draw_fault("write_reg", false) {
                Some(k) => s.fault(k),
                None => s,
            };
            c.go(s);
        }
        return;
    }
    let b = format!("p{}", it);
    if !supp {
        c.go(Step::cmd("p-unsupported", fam, b).tag("P17"));
        return;
    }
    if bad(c) {
        let b = *c.r.pick(&["p", "pzz", "p10000000000000000"]);
        c.go(Step::cmd("p-malformed", fam, b).reject());
        return;
    }
    match reg_size(id) {
        None => {
            c.go(Step::cmd("p-unknown", fam, b));
        }
        Some(sz) => {
            let avail = c.m.buflen;
            let n = match sz {
                Some(n) => n,
                None => 1 + c.amount(if c.m.small { 12 } else { avail.min(500) - 1 }),
            };
            if n > avail {
                return;
            }
            let mode = if bad(c) { c.r.below(3) } else { c.r.below(6) + 3 };
            let mut val = c.r.payload(n);
            let e = ev("read_reg").t(t).n(id as u64);
            let s = Step::cmd(if sz.is_some() { "p" } else { "p-var" }, fam, b).ev(e);
            let s = if mode == 0 && sz.is_some() {
                // wrong size
                val = c.r.payload(if n == 1 { 1 } else { n - 1 });
                c.world().reg_val = val.clone();
                c.world().reg_ret = if n == 1 { Some(2) } else { None };
                s.st(XS::Reject).pkf(|_, _| Ok(()))
            } else if mode <= 3 && sz.is_some() {
                // unavailable
                c.world().reg_val = vec![];
                c.world().reg_ret = Some(0);
                s.reply("xx".repeat(n))
            } else if mode == 1 {
                c.world().reg_val = vec![];
                c.world().reg_ret = Some(0);
                s.st(XS::Reject).pkf(|_, _| Ok(()))
            } else {
                c.world().reg_val = val.clone();
                c.world().reg_ret = None;
                s.reply(hex(&val))
            };
            let s = match if matches!(s.st, XS::Idle) { c.draw_fault("read_reg", false) } else { None } {
                Some(k) => s.fault(k),
                None => s,
            };
            c.go(s);
        }
    }
}

// ------------------------------------------------------------ threads

pub fn mutate_threads(c: &mut Ctx) {
    if !c.m.multi() {
        return;
    }
    let n = match c.r.below(6) {
        0 => 0,
        1 => 1,
        _ => c.r.range(1, if c.m.small { 3 } else { 9 }),
    };
    let mut v = vec![];
    while v.len() < n {
        let t = match c.r.below(4) {
            0 => c.r.range(1, 4),
            1 => c.r.next() as usize >> 1,
            2 => c.r.range(1, 0x200),
            _ => c.r.num(63) as usize,
        }
        .max(1);
        if !v.contains(&t) {
            v.push(t)
        }
    }
    c.world().threads = v;
    if c.r.chance(1, 3) {
        let p = c.r.num(62).max(1) as usize;
        c.world().pid = p;
    }
}

pub fn select_thread(c: &mut Ctx) {
    let fam = &["P11"];
    let op = if c.r.chance(1, 2) { 'g' } else { 'c' };
    let multi = c.m.multi();
    match c.r.below(10) {
        0 if bad(c) => {
            let t = c.some_tid();
            let b = match c.r.below(5) {
                0 => "H".to_string(),
                1 => format!("Hq{:x}", t),
                2 => format!("H{}", op),
                3 => format!("H{}zz", op),
                _ => format!("H{}p1.{:x}zz", op, t),
            };
            c.go(Step::cmd("H-malformed", fam, b).tag("P12").reject());
        }
        0 if bad(c) && multi => {
            let b = if c.r.chance(1, 2) { "Hg-1".to_string() } else { "Hgp1".to_string() };
            c.go(Step::cmd("Hg-all", fam, b).reject());
        }
        0 | 1 => {
            // any thread
            let b = match c.r.below(3) {
                0 => format!("H{}0", op),
                1 => format!("H{}p0.0", op),
                _ => format!("H{}p{:x}.0", op, c.pid()),
            };
            let live = c.live();
            if multi && c.r.chance(c.fault, 100) {
                let k = FailKind::Fatal(c.r.next() as u32);
                c.inject("list_threads", 0, k);
                c.go(Step::cmd("H-any", fam, b).fault(k));
                return;
            }
            let s = Step::cmd("H-any", fam, b).tag("P12");
            if live.is_empty() {
                c.go(s.some_err());
            } else if c.go(s.ok()) {
                let live = if multi { live } else { vec![1] };
                if op == 'g' {
                    c.m.mem = live
                } else {
                    c.m.res = live
                }
            }
        }
        2 if op == 'c' => {
            let b = match c.r.below(3) {
                0 => "Hc-1".to_string(),
                1 => format!("Hcp{:x}.-1", c.pid()),
                _ => format!("Hcp{:x}", c.pid()),
            };
            if c.go(Step::cmd("Hc-all", fam, b).tag("P12").ok()) {
                c.m.res = vec![R_ALL];
            }
        }
        _ => {
            let t = c.some_tid();
            let txt = c.tid_sent(t);
            if c.go(Step::cmd("H", fam, format!("H{}{}", op, txt)).tag("P12").ok()) {
                if op == 'g' {
                    c.m.mem = vec![t as i64]
                } else {
                    c.m.res = vec![t as i64]
                }
            }
        }
    }
}

pub fn threads(c: &mut Ctx) {
    let fam = &["P11", "P12"];
    if c.r.chance(1, 4) {
        mutate_threads(c);
    }
    let multi = c.m.multi();
    match c.r.below(7) {
        0 | 1 => {
            // full enumeration
            let live = c.live();
            if multi && c.r.chance(c.fault, 100) {
                let k = FailKind::Fatal(c.r.next() as u32);
                c.inject("list_threads", 0, k);
                c.go(Step::cmd("qfThreadInfo", fam, "qfThreadInfo").fault(k));
                return;
            }
            let mut got: Vec<String> = vec![];
            let s = Step::cmd("qfThreadInfo", fam, "qfThreadInfo").pkf(|_, _| Ok(()));
            if !c.go(s) {
                return;
            }
            for _ in 0..live.len() + 3 {
                if c.last_pk.len() != 1 {
                    let n = c.last_pk.len();
                    c.fail(vec!["P01", "P11"], "qfThreadInfo", format!("{} reply packets", n));
                    return;
                }
                let p = String::from_utf8_lossy(&c.last_pk[0]).to_string();
                if p == "l" {
                    break;
                }
                if !p.starts_with('m') {
                    c.fail(vec!["P11"], "qfThreadInfo", format!("unexpected thread list reply [{}]", p));
                    return;
                }
                if p.len() == 1 {
                    c.fail(vec!["P11"], "qfThreadInfo", "a thread list part without a thread".into());
                    return;
                }
                got.extend(p[1..].split(',').map(|s| s.to_string()));
                if !c.go(Step::cmd("qsThreadInfo", fam, "qsThreadInfo").pkf(|_, _| Ok(()))) {
                    return;
                }
            }
            let done = c.last_pk[0] == b"l";
            let want: Vec<String> = live.iter().map(|t| c.tid_reply(*t as u64)).collect();
            let tids = |v: &[String]| -> Vec<String> { v.iter().map(|s| s.rsplit('.').next().unwrap().to_string()).collect() };
            let tags: Vec<&'static str> = if tids(&got) == tids(&want) && done { vec!["P12"] } else { vec!["P11"] };
            if got != want || !done {
                c.fail(tags, "qfThreadInfo", format!("thread list {:?} (ended: {}), active threads {:?}", got, done, want));
            } else {
                c.stat.note("thread_lists", 1);
                c.stat.note("threads_listed", got.len() as u64);
            }
        }
        2 | 3 => {
            let live = c.live();
            let t = if c.r.chance(1, 3) { c.r.num(63).max(1) } else { c.some_tid() };
            let alive = live.contains(&(t as i64));
            let txt = c.tid_sent(t);
            if multi && c.r.chance(c.fault, 100) {
                let k = FailKind::Fatal(c.r.next() as u32);
                c.inject("list_threads", 0, k);
                c.go(Step::cmd("T", fam, format!("T{}", txt)).fault(k));
                return;
            }
            let s = Step::cmd("T", fam, format!("T{}", txt));
            c.go(if alive { s.ok() } else { s.some_err() });
        }
        4 => {
            let s = Step::cmd("qC", fam, "qC");
            if !c.has(F::EXT) || !c.has(F::EPID) {
                c.go(s.tag("P17"));
                return;
            }
            let live = c.live();
            let ok: Vec<i64> = if !multi {
                vec![1]
            } else {
                // thread id 1 doubles as "not selected yet"
                let mut v = c.m.mem.clone();
                if v.contains(&1) && !live.is_empty() {
                    v.retain(|t| *t != 1);
                    v.extend(live);
                }
                v
            };
            let want: Vec<String> = ok.iter().map(|t| format!("QC{}", c.tid_reply(*t as u64))).collect();
            c.go(s.replyf(move |_, p| {
                if want.iter().any(|w| w.as_bytes() == p) {
                    Ok(())
                } else {
                    Err(format!("current thread [{}], expected one of {:?}", show(p), want))
                }
            }));
        }
        5 => {
            let live = c.live();
            if multi && c.r.chance(c.fault, 100) {
                let k = FailKind::Fatal(c.r.next() as u32);
                c.inject("list_threads", 0, k);
                c.go(Step::cmd("?", fam, "?").fault(k));
                return;
            }
            let s = Step::cmd("?", fam, "?").tag("P14");
            reasonable(c, s, live);
        }
        _ => {
            if c.m.multi() && c.has(F::EXTRA) {
                let t = c.some_tid();
                let n = c.m.buflen;
                let x = c.payload(if c.m.small { 12 } else { n.min(600) });
                c.world().extra = x;
                let txt = c.tid_sent(t);
                let mut s = Step::cmd("qThreadExtraInfo", &["P23"], format!("qThreadExtraInfo,{}", txt)).tag("P12");
                let x = c.w.borrow().extra.clone();
                s = s.evf(move |e| {
                    if e.len() == 1 && e[0].op == "extra" && e[0].t == t as i64 {
                        Ok(())
                    } else {
                        Err(format!("thread description of {:x} requested, target calls {:?}", t, e))
                    }
                });
                if let Some(k) = c.draw_fault("extra", true) {
                    c.go(s.fault(k));
                    return;
                }
                let lim = c.m.buflen;
                c.go(s.replyf(move |e, p| {
                    let produced = &e[0].b[0];
                    if produced.len() < x.len().min(lim.saturating_sub(64)) {
                        return Err(format!("target was only offered room for {} bytes", produced.len()));
                    }
                    if p == hex(produced).as_bytes() {
                        Ok(())
                    } else {
                        Err(format!("description [{}] reported as [{}]", hex(produced), show(p)))
                    }
                }));
            } else {
                c.go(Step::cmd("qThreadExtraInfo-unsupported", &["P17"], "qThreadExtraInfo,1"));
            }
        }
    }
}

/// reply of `?`, `vRun` and `vAttach`
fn reasonable(c: &mut Ctx, s: Step, live: Vec<i64>) -> bool {
    let want: Vec<String> = if live.is_empty() {
        vec!["W00".into()]
    } else {
        live.iter().map(|t| format!("thread:{};", c.tid_reply(*t as u64))).collect()
    };
    let s = s.replyf(move |_, p| {
        let p = String::from_utf8_lossy(p).to_string();
        let ok = if want.len() == 1 && want[0] == "W00" {
            p == "W00;" || p == "W00"
        } else {
            want.iter().any(|w| p == format!("T05{}", w))
        };
        if ok {
            Ok(())
        } else {
            Err(format!("stop report [{}], live threads {:?}", p, want))
        }
    });
    let r = c.go(s);
    if r && !c.m.multi() && c.m.res == vec![R_ALL] {
        c.m.res.push(1);
    }
    if r && c.m.multi() {
        // like any stop report this selects the thread for access; whether it
        // does for resumption is left open
        let mut t: Vec<i64> = c.live();
        let l = c.last_pk.first().cloned().unwrap_or_default();
        t.retain(|t| l == format!("T05thread:{};", c.tid_reply(*t as u64)).into_bytes());
        for x in t {
            c.m.mem = vec![x];
            if !c.m.res.contains(&x) && c.m.res != vec![R_ALL] {
                c.m.res.push(x)
            } else if c.m.res == vec![R_ALL] {
                c.m.res.push(x)
            }
        }
    }
    r
}

// ------------------------------------------------------------ resume / stop

pub fn gen_stop(c: &mut Ctx, supported: bool) -> Option<Stop> {
    let multi = c.m.multi();
    let tid = if multi { c.some_tid() as usize } else { 1 };
    let a = c.addr();
    for _ in 0..20 {
        let opt = if c.r.chance(1, 2) { Some(tid) } else { None };
        let sr = match c.r.below(12) {
            0 => SR::DoneStep,
            _ if c.focus == "P26" && c.r.chance(1, 4) => {
                let x = c.r.next() as u8;
                if c.r.chance(1, 2) {
                    SR::Exited(x)
                } else {
                    SR::Terminated(x)
                }
            }
            1 => SR::Exited(c.r.next() as u8),
            2 => SR::Terminated(c.r.next() as u8),
            3 => SR::Signal(c.r.next() as u8),
            4 | 5 => SR::SigThread(tid, c.r.next() as u8),
            6 => SR::SwBreak(tid),
            7 => SR::HwBreak(tid),
            8 | 9 => SR::Watch(tid, *c.r.pick(&[2, 3, 4]), a),
            10 => SR::Replay(opt, c.r.chance(1, 2)),
            _ => SR::Catch(opt, c.addr(), c.r.chance(1, 2)),
        };
        let mut s = Stop { sr, single: false };
        if !multi && c.r.chance(3, 4) {
            s.single = true;
            // a single threaded reason carries no thread id: the stub adds it
            match &mut s.sr {
                SR::Replay(t, _) => *t = None,
                SR::Catch(t, _, _) => *t = None,
                _ => {}
            }
        }
        let ok = stop_reply(c, &s).is_some();
        if ok == supported {
            // endings are kept rarer
            if matches!(s.sr, SR::Exited(_) | SR::Terminated(_)) && c.focus != "P26" && !c.r.chance(1, 3) {
                continue;
            }
            return Some(s);
        }
    }
    None
}

/// (reply, state, thread)
pub fn stop_reply(c: &Ctx, s: &Stop) -> Option<(String, XS, Option<i64>)> {
    let bp = c.has(F::BP);
    let rev = c.has(F::RESUME) && (c.has(F::RSTEP) || c.has(F::RCONT));
    let thr = |t: usize| {
        let t = if s.single { 1 } else { t };
        (format!("thread:{};", c.tid_reply(t as u64)), Some(t as i64))
    };
    let o = |t: &Option<usize>| match t {
        // SingleThreadStopReason carries no thread for these reasons
        Some(t) => thr(*t),
        None => (String::new(), None),
    };
    Some(match &s.sr {
        SR::DoneStep => ("S05".into(), XS::Idle, None),
        SR::Exited(x) => (format!("W{:02x}", x), XS::Disc(Why::Exited(*x)), None),
        SR::Terminated(x) => (format!("X{:02x}", x), XS::Disc(Why::Terminated(*x)), None),
        SR::Signal(x) => (format!("S{:02x}", x), XS::Idle, None),
        SR::SigThread(t, x) => {
            let (s, t) = thr(*t);
            (format!("T{:02x}{}", x, s), XS::Idle, t)
        }
        SR::SwBreak(t) if bp && c.has(F::SW) => {
            let (s, t) = thr(*t);
            (format!("T05{}swbreak:;", s), XS::Idle, t)
        }
        SR::HwBreak(t) if bp && c.has(F::HW) => {
            let (s, t) = thr(*t);
            (format!("T05{}hwbreak:;", s), XS::Idle, t)
        }
        SR::Watch(t, k, a) if bp && c.has(F::WATCH) => {
            let (s, t) = thr(*t);
            let k = match k {
                2 => "watch",
                3 => "rwatch",
                _ => "awatch",
            };
            (format!("T05{}{}:{};", s, k, num(*a)), XS::Idle, t)
        }
        SR::Replay(t, b) if rev => {
            let (s, t) = o(t);
            (format!("T05{}replaylog:{};", s, if *b { "begin" } else { "end" }), XS::Idle, t)
        }
        SR::Catch(t, n, e) if c.has(F::CATCH) => {
            let (s, t) = o(t);
            (
                format!("T05{}{}:{};", s, if *e { "syscall_entry" } else { "syscall_return" }, num(*n)),
                XS::Idle,
                t,
            )
        }
        _ => return None,
    })
}

fn after_stop(c: &mut Ctx, t: Option<i64>) {
    if let Some(t) = t {
        c.m.mem = vec![t];
        c.m.res = vec![t];
    }
    c.m.deferred.clear();
    c.stat.note("stop_replies", 1);
    maybe_revive(c);
}

/// a stop reply is due for `stop`; `s` is the step that triggers it
fn stop_step(c: &mut Ctx, s: Step, stop: &Stop) -> bool {
    match stop_reply(c, stop) {
        Some((r, st, t)) => {
            if c.m.multiproc && t.is_some() && c.has(F::EXT) && c.has(F::EPID) {
                if let Some(k) = c.draw_fault("cur_pid", true) {
                    return c.go(s.fault(k));
                }
            }
            // `after_stop` only if the session survived the step
            let end = matches!(st, XS::Disc(_));
            let s = s.reply(r).st(st).tag("P14");
            let s = if end { s.tag("P26") } else { s };
            if c.go(s) {
                after_stop(c, t);
            }
        }
        None => {
            c.go(s.none().st(XS::Proto).tag("P14"));
        }
    }
    c.alive()
}

/// run after a step that may have ended the session
pub fn maybe_revive(c: &mut Ctx) {
    if c.alive() && matches!(c.s.st(), St::Disc(_)) {
        if c.r.chance(3, 4) {
            c.m.deferred.clear();
            c.go(Step::input("return_to_idle", &["P26"], Input::ToIdle));
        } else {
            c.dead = true;
        }
    }
}

/// what happens once a resume request was accepted
fn resumed(c: &mut Ctx, s: Step) -> bool {
    let s = s.tag("P13");
    if let Some(stop) = c.m.deferred.first().cloned() {
        let s = s.tag("P15");
        stop_step(c, s, &stop);
        return c.alive();
    }
    if c.go(s.running()) {
        c.stat.note("resumes", 1);
        if *c.s.st() == St::Running {
            running(c);
        }
    }
    c.alive()
}

fn running(c: &mut Ctx) {
    for _ in 0..c.r.below(4) {
        match c.r.below(4) {
            0 => {
                // stray acknowledgement while running
                let n = c.r.range(1, 3);
                if !c.go(Step::raw("ack-while-running", &["P14"], vec![b'+'; n]).st(XS::Running)) {
                    return;
                }
            }
            1 | 2 => {
                if !c.go(Step::raw("ctrl-c-running", &["P15"], vec![3u8]).st(XS::CtrlC)) {
                    return;
                }
                if c.r.chance(1, 2) {
                    if !c.go(Step::input("int-none", &["P15"], Input::Int(None)).st(XS::Running)) {
                        return;
                    }
                } else {
                    let ok = !bad(c);
                    if let Some(stop) = gen_stop(c, ok) {
                        let s = Step::input("int-stop", &["P15"], Input::Int(Some(stop.clone())));
                        stop_step(c, s, &stop);
                        return;
                    } else if !c.go(Step::input("int-none", &["P15"], Input::Int(None)).st(XS::Running)) {
                        return;
                    }
                }
            }
            _ => {}
        }
    }
    let ok = !bad(c);
    let stop = match gen_stop(c, ok) {
        Some(s) => s,
        None => gen_stop(c, true).unwrap_or(Stop { sr: SR::DoneStep, single: false }),
    };
    let s = Step::input("report_stop", &["P14"], Input::Stop(stop.clone()));
    stop_step(c, s, &stop);
}

pub fn ctrlc_idle(c: &mut Ctx) {
    let fam = &["P15"];
    if !c.go(Step::raw("ctrl-c-idle", fam, vec![3u8]).st(XS::CtrlC)) {
        return;
    }
    if let Some(d) = c.m.deferred.first().cloned() {
        if c.r.chance(1, 2) {
            // same reason again, so that there is only one right answer
            c.go(Step::input("int-idle-again", fam, Input::Int(Some(d))));
        } else {
            // back to the state before the interruption, whose reason is still due
            c.go(Step::input("int-idle-keep", fam, Input::Int(None)));
        }
        return;
    }
    if c.r.chance(1, 3) {
        c.go(Step::input("int-idle-none", fam, Input::Int(None)));
    } else {
        let ok = !bad(c);
        if let Some(stop) = gen_stop(c, ok) {
            if c.go(Step::input("int-idle-stop", fam, Input::Int(Some(stop.clone())))) {
                c.m.deferred = vec![stop];
                if c.r.chance(2, 3) && c.has(F::RESUME) {
                    // idle work in between, then the resume
                    if c.r.chance(1, 2) {
                        c.go(Step::cmd("unknown-between", fam, "qFooBar"));
                    }
                    resume(c);
                }
            }
        } else {
            c.go(Step::input("int-idle-none", fam, Input::Int(None)));
        }
    }
}

pub fn resume_query(c: &mut Ctx) {
    let s = Step::cmd("vCont?", &["P13", "P17"], "vCont?");
    if !c.has(F::RESUME) {
        c.go(s);
        return;
    }
    let (st, ra) = (c.has(F::STEP), c.has(F::RANGE));
    c.go(s.replyf(move |_, p| {
        let p = String::from_utf8_lossy(p).to_string();
        let mut got: Vec<&str> = p.split(';').collect();
        if got.first() != Some(&"vCont") {
            return Err(format!("vCont? answered with [{}]", p));
        }
        got.remove(0);
        let mut want = vec!["c", "C"];
        if st {
            want.extend(["s", "S"])
        }
        if ra {
            want.push("r")
        }
        got.sort();
        want.sort();
        if got == want {
            Ok(())
        } else {
            Err(format!("reported actions {:?}, target supports {:?}", got, want))
        }
    }));
}

fn sigval(c: &mut Ctx) -> (String, u64) {
    let s = c.r.next() as u8;
    let t = match c.r.below(12) {
        0..=2 => format!("{:02X}", s),
        3 => format!("{:04x}", s),
        4 => format!("{:x}", s),
        _ => format!("{:02x}", s),
    };
    (t, s as u64)
}

fn not_resumed(s: Step) -> Step {
    s.evf(|e| {
        if let Some(x) =
            e.iter().find(|e| matches!(e.op, "mt_resume" | "st_resume" | "st_step" | "st_range" | "rev_cont" | "rev_step"))
        {
            Err(format!("rejected resume request reached the target: {:?}", x))
        } else {
            Ok(())
        }
    })
    .reject()
}

pub fn resume(c: &mut Ctx) {
    let fam = &["P13"];
    if !c.has(F::RESUME) {
        let b: Vec<u8> = match c.r.below(6) {
            0 => b"c".to_vec(),
            1 => b"s".to_vec(),
            2 => b"vCont;c".to_vec(),
            3 => b"bc".to_vec(),
            4 => b"C05".to_vec(),
            _ => b"S05".to_vec(),
        };
        let stub = c.has(F::RSTUB) && matches!(b[0], b'c' | b'C' | b's' | b'S');
        let s = Step::cmd("resume-unsupported", &["P17"], b);
        if stub {
            c.go(s.pkf(|_, p| {
                // diagnostic on the console, then a stop reply
                if p.len() == 2 && p[0].first() == Some(&b'O') && unhex(&p[0][1..]).is_some() && p[1] == b"S05" {
                    Ok(())
                } else {
                    Err(format!("expected a console diagnostic and a stop reply, got {:?}", p.iter().map(|p| show(p)).collect::<Vec<_>>()))
                }
            }));
        } else {
            c.go(s);
        }
        return;
    }
    let multi = c.m.multi();
    let (step, range) = (c.has(F::STEP), c.has(F::RANGE));
    match c.r.below(10) {
        0 => {
            // bc
            let s = Step::cmd("bc", fam, "bc");
            if !c.has(F::RCONT) {
                c.go(s.tag("P17"));
                return;
            }
            let s = s.ev(ev("rev_cont"));
            if let Some(k) = c.draw_fault("rev_cont", true) {
                c.go(s.fault(k));
                return;
            }
            resumed(c, s);
        }
        1 => {
            let s = Step::cmd("bs", fam, "bs");
            if !c.has(F::RSTEP) {
                c.go(s.tag("P17"));
                return;
            }
            if c.m.res.contains(&R_ALL) {
                if c.m.res.len() == 1 && bad(c) {
                    c.go(not_resumed(s));
                }
                return;
            }
            let t = if multi { T_ANY } else { 0 };
            let s = s.tag("P11").ev(ev("rev_step").t(t));
            if let Some(k) = c.draw_fault("rev_step", true) {
                c.go(s.fault(k));
                return;
            }
            resumed(c, s);
        }
        2 | 3 => {
            // legacy c / s
            let is_step = c.r.chance(1, 2);
            let all = c.m.res.contains(&R_ALL);
            if multi && all && c.m.res.len() > 1 {
                return;
            }
            let body = if c.r.chance(1, 5) {
                format!("{}{:x}", if is_step { "s" } else { "c" }, c.addr())
            } else {
                if is_step { "s" } else { "c" }.to_string()
            };
            let s = Step::cmd(if is_step { "s" } else { "c" }, fam, body);
            if is_step && (!step || (multi && all)) {
                if bad(c) {
                    c.go(not_resumed(s));
                }
                return;
            }
            if !multi {
                let op = if is_step { "st_step" } else { "st_resume" };
                let s = s.ev(ev(op).n(0x100));
                if let Some(k) = c.draw_fault(op, true) {
                    c.go(s.fault(k));
                    return;
                }
                resumed(c, s);
            } else {
                let s = s.tag("P11");
                let s = if is_step {
                    s.ev(ev("mt_clear")).ev(ev("mt_step").t(T_ANY).n(0x100)).ev(ev("mt_resume"))
                } else if all {
                    s.ev(ev("mt_clear")).ev(ev("mt_resume"))
                } else {
                    s.ev(ev("mt_clear")).ev(ev("mt_cont").t(T_ANY).n(0x100)).ev(ev("mt_resume"))
                };
                if let Some(k) = c.draw_fault("mt_resume", true) {
                    c.go(s.fault(k));
                    return;
                }
                resumed(c, s);
            }
        }
        _ if !multi => {
            if bad(c) {
                let b: String = match c.r.below(8) {
                    0 => "vCont".into(),
                    1 => "vCont;".into(),
                    2 if c.r.chance(1, 2) => format!("vCont;C{:x}", 0x100 + c.r.below(0xf00)),
                    2 => "vCont;x".into(),
                    3 => "vCont;c;s".into(),
                    4 => "vCont;c;c;c".into(),
                    5 => "vCont;t".into(),
                    6 => format!("vCont;r{:x}:1", c.addr()),
                    _ => {
                        if !step {
                            "vCont;s:1;c".into()
                        } else if !range {
                            "vCont;r10,20:1".into()
                        } else {
                            format!("vCont;r{},{}:1", c.wide(), c.wide())
                        }
                    }
                };
                c.go(not_resumed(Step::cmd("vCont-rejected", fam, b)));
                return;
            }
            let tid = match c.r.below(5) {
                0 => "".to_string(),
                1 => ":-1".to_string(),
                2 => ":0".to_string(),
                3 if c.r.chance(1, 3) => format!(":p{:x}.-1", c.pid()),
                _ => format!(":{}", c.tid_sent(1)),
            };
            let second = *c.r.pick(&["", "", ";c", ";c:-1"]);
            let (sg, sv) = sigval(c);
            let (a, b) = (c.addr(), c.addr());
            let (act, e): (String, Ev) = match c.r.below(5) {
                0 if step => ("s".into(), ev("st_step").n(0x100)),
                1 if step => (format!("S{}", sg), ev("st_step").n(sv)),
                2 if range => {
                    (format!("r{},{}", hx(&mut c.r, a), hx(&mut c.r, b)), ev("st_range").n(a).n(b))
                }
                3 => (format!("C{}", sg), ev("st_resume").n(sv)),
                _ => ("c".into(), ev("st_resume").n(0x100)),
            };
            let op = e.op;
            let s = Step::cmd("vCont", fam, format!("vCont;{}{}{}", act, tid, second)).ev(e);
            if let Some(k) = c.draw_fault(op, true) {
                c.go(s.fault(k));
                return;
            }
            resumed(c, s);
        }
        _ => {
            let n = match c.r.below(20) {
                0..=3 => 0,
                // a target with many threads
                4 if !c.m.small && c.m.limit > 700 => c.r.range(9, 64).min(c.m.limit / 64),
                _ => c.r.range(1, if c.m.small { 3 } else { 8 }),
            };
            let mut acts = vec![];
            let mut evs = vec![ev("mt_clear")];
            for _ in 0..n {
                let t = c.some_tid();
                let txt = c.tid_sent(t);
                let (sg, sv) = sigval(c);
                let (a, b) = (c.addr(), c.addr());
                match c.r.below(6) {
                    0 if step => {
                        acts.push(format!("s:{}", txt));
                        evs.push(ev("mt_step").t(t as i64).n(0x100));
                    }
                    1 if step => {
                        acts.push(format!("S{}:{}", sg, txt));
                        evs.push(ev("mt_step").t(t as i64).n(sv));
                    }
                    2 if range => {
                        acts.push(format!("r{},{}:{}", hx(&mut c.r, a), hx(&mut c.r, b), txt));
                        evs.push(ev("mt_range").t(t as i64).n(a).n(b));
                    }
                    3 => {
                        acts.push(format!("C{}:{}", sg, txt));
                        evs.push(ev("mt_cont").t(t as i64).n(sv));
                    }
                    _ => {
                        acts.push(format!("c:{}", txt));
                        evs.push(ev("mt_cont").t(t as i64).n(0x100));
                    }
                }
            }
            match if n == 0 { c.r.below(6) } else { c.r.below(8) } {
                0..=3 => acts.push("c".into()),
                4 => acts.push("c:-1".into()),
                5 => acts.push(format!("c:p{:x}.-1", c.pid())),
                6 if c.r.chance(1, 3) => acts.push("c:0".into()),
                _ => {}
            }
            if acts.is_empty() {
                return;
            }
            if bad(c) {
                // spoil it somewhere
                let t = c.some_tid();
                let x = match c.r.below(10) {
                    0 => "s".to_string(),
                    1 => "x".to_string(),
                    2 => "".to_string(),
                    3 => "t".to_string(),
                    4 if c.r.chance(1, 2) => format!("C{:x}:{:x}", 0x100 + c.r.below(0xf00), t),
                    4 => format!("C:{:x}", t),
                    5 => format!("c:zz{:x}", t),
                    6 => format!("r10:{:x}", t),
                    7 if range => {
                        let w = c.wide();
                        format!("r{},{}:{:x}", w, w, t)
                    }
                    8 if !step => format!("s:{:x}", t),
                    9 if !range => format!("r10,20:{:x}", t),
                    _ => "S05:-1".to_string(),
                };
                let at = c.r.below(acts.len() + 1);
                acts.insert(at, x);
                let b = format!("vCont;{}", acts.join(";"));
                c.go(not_resumed(Step::cmd("vCont-rejected", fam, b)));
                return;
            }
            evs.push(ev("mt_resume"));
            let s = Step::cmd("vCont", fam, format!("vCont;{}", acts.join(";")));
            if c.r.chance(c.fault, 100) {
                let k = FailKind::Fatal(c.r.next() as u32);
                let at = c.r.below(evs.len());
                let op = evs[at].op;
                let skip = evs[..at].iter().filter(|e| e.op == op).count();
                c.inject(op, skip, k);
                evs.truncate(at + 1);
                c.go(s.evs(evs).fault(k));
                return;
            }
            let s = s.evs(evs);
            resumed(c, s);
        }
    }
}

// ------------------------------------------------------------ breakpoints

pub fn breakpoints(c: &mut Ctx) {
    let fam = &["P16"];
    let rm = c.r.chance(1, 2);
    let z = if rm { "z" } else { "Z" };
    let ty: u64 = match c.r.below(10) {
        0 => c.r.range(5, 255) as u64,
        _ => c.r.below(5) as u64,
    };
    let a = c.addr();
    let k = match c.r.below(5) {
        0 => c.addr(),
        1 => 0x77,
        _ => c.r.below(0x20) as u64,
    };
    let supp = c.has(F::BP)
        && match ty {
            0 => c.has(F::SW),
            1 => c.has(F::HW),
            2..=4 => c.has(F::WATCH),
            _ => false,
        };
    // conditions and commands are not offered to clients, and ignored
    let extra = if !rm && c.r.chance(1, 12) {
        if supp {
            *c.r.pick(&[";X1,20", ";X3,220127X1,20", ";X1,20;cmds:0,X1,20", ";X2,2227;cmds:1,X1,20X1,27"])
        } else {
            ";cmds:0"
        }
    } else {
        ""
    };
    let body = format!("{}{:x},{},{}{}", z, ty, hx(&mut c.r, a), hx(&mut c.r, k), extra);
    if !supp {
        c.go(Step::cmd("Z-unsupported", fam, body).tag("P17"));
        return;
    }
    if ty < 2 && !kind_ok(k) {
        if bad(c) || bad(c) {
            c.go(Step::cmd("Z-badkind", fam, body).reject());
        }
        return;
    }
    if bad(c) {
        let w = c.wide();
        let b = match c.r.below(6) {
            0 => format!("{}{:x},{},{:x}", z, ty, w, k),
            1 => format!("{}{:x},{:x},{}", z, ty, a, if ty < 2 { format!("1{:016x}", a) } else { w }),
            2 => format!("{}{:x},{:x}", z, ty, a),
            3 => format!("{}{:x}", z, ty),
            4 => format!("{}100,{:x},{:x}", z, a, k),
            _ => format!("{}{:x},zz,{:x}", z, ty, k),
        };
        c.go(Step::cmd("Z-rejected", fam, b).reject());
        return;
    }
    let e = match (ty, rm) {
        (0, false) => ev("add_sw"),
        (0, true) => ev("rm_sw"),
        (1, false) => ev("add_hw"),
        (1, true) => ev("rm_hw"),
        (_, false) => ev("add_watch"),
        (_, true) => ev("rm_watch"),
    };
    let e = e.n(a).n(k);
    let e = if ty >= 2 { e.n(ty) } else { e };
    let ok = c.r.chance(3, 4);
    c.world().bp_ok = ok;
    let s = Step::cmd(if rm { "z" } else { "Z" }, fam, body).ev(e);
    let s = match c.draw_fault("bp", false) {
        Some(k) => s.fault(k),
        None => {
            if ok {
                s.ok()
            } else {
                s.err(22)
            }
        }
    };
    c.go(s);
}

// ------------------------------------------------------------ features

pub fn xml_supported(c: &Ctx) -> bool {
    c.has(F::USEXML) && (c.has(F::XMLARCH) || c.has(F::XMLOVR))
}

pub fn q_supported(c: &mut Ctx) {
    let fam = &["P17"];
    if bad(c) {
        let b = *c.r.pick(&["qSupported:multiprocess+;;swbreak+", "qSupported;multiprocess+"]);
        c.go(Step::cmd("qSupported-malformed", fam, b).reject());
        return;
    }
    let mut feats: Vec<String> = vec![];
    let mut mp = None;
    for _ in 0..c.r.below(5) {
        feats.push(
            (*c.r.pick(&[
                "swbreak+", "hwbreak+", "qRelocInsn+", "xmlRegisters=i386,arm", "fork-events+", "vfork-events-", "no-resumed?",
                "QThreadEvents+", "multiprocessx+", "multi+", "error-message+", "memory-tagging-",
            ]))
            .to_string(),
        );
    }
    match c.r.below(3) {
        0 => {
            mp = Some(true);
            feats.push("multiprocess+".into())
        }
        1 => {
            mp = Some(false);
            feats.push("multiprocess-".into())
        }
        _ => {
            if feats.is_empty() {
                feats.push("swbreak+".into())
            }
        }
    }
    let i = c.r.below(feats.len());
    let last = feats.len() - 1;
    feats.swap(i, last);
    // the feature list is optional
    let bare = c.r.chance(1, 8);
    if bare {
        mp = None;
        feats.clear();
    }
    let mut want: Vec<&str> = vec!["vContSupported+", "multiprocess+"];
    let m = &c.m;
    if m.has(F::NOACK) {
        want.push("QStartNoAckMode+")
    }
    if m.has(F::RESUME) && m.has(F::RCONT) {
        want.push("ReverseContinue+")
    }
    if m.has(F::RESUME) && m.has(F::RSTEP) {
        want.push("ReverseStep+")
    }
    if m.has(F::EXT) {
        if m.has(F::EASLR) {
            want.push("QDisableRandomization+")
        }
        if m.has(F::EENV) {
            want.extend(["QEnvironmentHexEncoded+", "QEnvironmentUnset+", "QEnvironmentReset+"])
        }
        if m.has(F::ESHELL) {
            want.push("QStartupWithShell+")
        }
        if m.has(F::EWD) {
            want.push("QSetWorkingDir+")
        }
    }
    if m.has(F::BP) {
        if m.has(F::SW) {
            want.push("swbreak+")
        }
        if m.has(F::HW) || m.has(F::WATCH) {
            want.push("hwbreak+")
        }
    }
    if m.has(F::TRACE) {
        want.push("QTBuffer:size+");
        if m.has(F::TSRC) {
            want.push("TracepointSource+")
        }
    }
    if m.has(F::CATCH) {
        want.push("QCatchSyscalls+")
    }
    if xml_supported(c) {
        want.push("qXfer:features:read+")
    }
    for (f, n) in [
        (F::MEMMAP, "qXfer:memory-map:read+"),
        (F::EXECF, "qXfer:exec-file:read+"),
        (F::AUXV, "qXfer:auxv:read+"),
        (F::LIBS, "qXfer:libraries-svr4:read+"),
    ] {
        if m.has(f) {
            want.push(n)
        }
    }
    let mut want: Vec<String> = want.iter().map(|s| s.to_string()).collect();
    want.sort();
    let body = if bare { "qSupported".to_string() } else { format!("qSupported:{}", feats.join(";")) };
    let flen = frame(body.as_bytes()).len();
    let size = if c.m.owned { c.m.buflen.max(flen) } else { c.m.buflen };
    let s = Step::cmd("qSupported", fam, body).pkf(|_, p| if p.len() == 1 { Ok(()) } else { Err("no single reply".into()) });
    if !c.go(s) || c.last_pk.is_empty() {
        return;
    }
    if let Some(b) = mp {
        c.m.multiproc = b;
    }
    let p = String::from_utf8_lossy(&c.last_pk[0]).to_string();
    let mut got: Vec<String> = vec![];
    let mut ps = None;
    for f in p.split(';') {
        if let Some(v) = f.strip_prefix("PacketSize=") {
            ps = parse_hex_u128(v.as_bytes());
        } else {
            got.push(f.to_string())
        }
    }
    got.sort();
    if got != want {
        let miss: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
        c.fail(
            vec!["P17"],
            "qSupported",
            format!("feature list [{}]: missing {:?}, superfluous {:?} for target features [{}]", p, miss, extra, c.m.cfg.names()),
        );
        return;
    }
    if ps != Some(size.saturating_sub(4) as u128) {
        c.fail(vec!["P06", "P30"], "qSupported", format!("advertised packet size {:x?}, usable buffer is {:#x} bytes", ps, size));
        return;
    }
    // the advertised size must be usable
    if !c.m.small && c.m.limit + 4 == size && size > 8 && c.r.chance(1, 3) {
        let body = vec![b'y'; size - 4];
        c.go(Step::cmd("full-size-packet", &["P06"], body).tag("P04"));
    }
}

pub fn unknown(c: &mut Ctx) {
    let fam = &["P17"];
    let b: Vec<u8> = match c.r.below(16) {
        0 => vec![],
        1 => b"qSymbol::".to_vec(),
        2 => b"vMustReplyEmpty".to_vec(),
        3 => b"qTsV".to_vec(),
        4 => b"QTDV:1:0:0:".to_vec(),
        5 => b"!".to_vec(),
        6 => b"qXfer:threads:read::0,100".to_vec(),
        7 => b"qL1200".to_vec(),
        8 => b"jThreadsInfo".to_vec(),
        9 => b"vFile:ls:00".to_vec(),
        10 => b"QNonStop:0".to_vec(),
        11 => b"i".to_vec(),
        12 => b"qXfer:features:write:target.xml:0,1".to_vec(),
        13 => b"qHostInfo".to_vec(),
        14 => {
            // random letters behind an unused first character
            let mut v = vec![*c.r.pick(b"aefhjlnoruwxyAEFIJLNOUWY_/")];
            let n = c.amount(200);
            let p = c.r.payload(n);
            v.extend(p.into_iter().filter(|b| !matches!(b, b'#' | b'$')));
            v
        }
        _ => {
            let mut v = b"qYY".to_vec();
            let room = c.m.limit.saturating_sub(3);
            let n = c.amount(room);
            let p = c.r.payload(n);
            v.extend(p.into_iter().filter(|b| !matches!(b, b'#' | b'$')));
            v
        }
    };
    if b == b"!" && c.has(F::EXT) {
        let s = Step::cmd("!", &["P21"], b).ok().evs(if c.w.borrow().cfg.mini() { vec![] } else { vec![ev("on_start")] });
        let s = match c.draw_fault("on_start", true) {
            Some(k) => s.fault(k),
            None => s,
        };
        c.go(s);
        return;
    }
    let has3 = b.contains(&3);
    let s = Step::cmd("unknown", fam, b);
    let s = if has3 { s.tag("P15") } else { s };
    c.go(s);
}

/// commands of the standard protocol that merely start like supported ones
pub fn lookalike(c: &mut Ctx) {
    let fam = &["P17"];
    let b: &'static str = *c.r.pick(&[
        "qCRC:1000,10",
        "qCRC:0,ffff",
        "vContFoo",
        "vKillall",
        "vRunning",
        "vAttachX;1",
        "vAttachWait;1",
        "qTPfoo",
        "qTStatusX",
        "qTStatusFoo:1",
        "QTFrameX:1",
        "QTStartX",
        "QTinitX",
        "QTBufferX:circular:1",
        "qCX",
        "qsThreadInfoX",
        "qfThreadInfoX",
        "qOffsetsX",
        "qRcmdX,41",
        "qSearch:memory:0;10;41",
        "QStartNoAckModeX",
        "QDisableRandomizationX:1",
        "QCatchSyscallsX:1",
        "qXfer:featuresX:read:target.xml:0,10",
        "qXfer:libraries:read::0,10",
        "qXfer:auxvX:read::0,10",
        "vFile:openX:41,0,0",
        "vFile:opens:41,0,0",
        "qSupportedX:xmlRegisters=i386",
        "qAttachedX",
    ]);
    let s = Step::cmd(b, fam, b);
    c.go(s);
}

pub fn no_ack(c: &mut Ctx) {
    let s = Step::cmd("QStartNoAckMode", &["P05"], "QStartNoAckMode");
    if !c.has(F::NOACK) {
        c.go(s.tag("P17"));
    } else if c.go(s.ok()) {
        c.m.noack = true;
    }
}

// ------------------------------------------------------------ qXfer

pub fn slice_of(obj: &[u8], off: u64, len: u64) -> Vec<u8> {
    let s = off.min(obj.len() as u64) as usize;
    let e = s.saturating_add(len.min(obj.len() as u64) as usize).min(obj.len());
    obj[s..e].to_vec()
}

pub fn qxfer(c: &mut Ctx) {
    let fam = &["P19"];
    let which = c.r.below(5);
    let supp = match which {
        0 => xml_supported(c),
        1 => c.has(F::MEMMAP),
        2 => c.has(F::EXECF),
        3 => c.has(F::AUXV),
        _ => c.has(F::LIBS),
    };
    let arch = which == 0 && !c.has(F::XMLOVR);
    let obj: Vec<u8> = if arch {
        ARCH_XML.with(|x| x.get()).unwrap_or("").trim().as_bytes().to_vec()
    } else {
        let max = c.m.buflen * 3;
        let n = c.amount(max.min(6000));
        c.r.payload(n)
    };
    c.world().objs[which] = obj.clone();
    let (annex, aev): (String, Vec<u8>) = match which {
        0 => {
            if arch || c.r.chance(2, 3) {
                ("target.xml".into(), b"target.xml".to_vec())
            } else {
                let a = (*c.r.pick(&["sse.xml", "", "x", "a b.xml", "../core,1.xml"])).to_string();
                (a.clone(), a.into_bytes())
            }
        }
        2 => {
            if c.r.chance(1, 3) {
                (String::new(), vec![])
            } else {
                let p = c.r.num(62).max(1);
                (hx(&mut c.r, p), format!("{:x}", p).into_bytes())
            }
        }
        _ => (String::new(), vec![]),
    };
    let req = |annex: &str, o: &str, l: &str| format!("qXfer:{}:read:{}:{},{}", XF[which], annex, o, l);
    if !supp {
        c.go(Step::cmd("qXfer-unsupported", fam, req(&annex, "0", "100")).tag("P17"));
        return;
    }
    if bad(c) {
        let b = match c.r.below(4) {
            0 => req(&annex, "0", ""),
            1 => req(&annex, "zz", "10"),
            2 => format!("qXfer:{}:read", XF[which]),
            _ => match which {
                0 if !arch => return,
                2 => req("zz", "0", "10"),
                _ => req("nope.xml", "0", "10"),
            },
        };
        c.go(Step::cmd("qXfer-malformed", fam, b).reject());
        return;
    }
    let whole = c.r.chance(1, 3) && !(c.m.small && arch && obj.len() > 200);
    let mut off: u64 = if whole {
        0
    } else {
        match c.r.below(4) {
            0 => obj.len() as u64 + c.r.below(3) as u64,
            1 => c.r.next(),
            2 => u64::MAX - c.r.below(2) as u64,
            _ => c.r.below(obj.len() + 1) as u64,
        }
    };
    let strat = c.r.below(4);
    let mut got: Vec<u8> = vec![];
    let mut rounds = 0;
    loop {
        let len: u64 = match strat {
            0 => (obj.len() as u64 / 3).max(1),
            1 => *c.r.pick(&[usize::MAX as u64, u32::MAX as u64, 0xffffff]),
            2 => (obj.len() as u64 / 50 + c.r.below(50) as u64).max(1),
            _ => c.m.limit.max(1) as u64,
        };
        // the longest possible reply depends on the buffer
        let len = if c.m.small && arch { len.min(12) } else { len };
        let b = req(&annex, &hx(&mut c.r, off), &hx(&mut c.r, len));
        if b.len() > c.m.limit {
            return;
        }
        let want = slice_of(&obj, off, len);
        let bl = c.m.buflen;
        let total = obj.len() as u64;
        let s = Step::cmd(if arch { "qXfer-arch" } else { "qXfer" }, fam, b);
        if !arch {
            if let Some(k) = c.draw_fault("xfer", false) {
                let e = ev("xfer").n(which as u64).b(&aev).n(off).n(len).b(b"");
                c.go(s.ev(e).fault(k));
                return;
            }
        }
        let s = if arch {
            s
        } else {
            let aev = aev.clone();
            s.evf(move |e| {
                let ok = e.len() == 1
                    && e[0].op == "xfer"
                    && e[0].n == vec![which as u64, off, len]
                    && e[0].b.first() == Some(&aev);
                if ok {
                    Ok(())
                } else {
                    Err(format!("requested object {} annex {:?} offset {:#x} length {:#x}, target calls {:?}", which, show(&aev), off, len, e))
                }
            })
        };
        let s = s.replyf(move |e, p| {
            let produced: Vec<u8> = if arch { want.clone() } else { e[0].b[1].clone() };
            let kind = p.first().copied().unwrap_or(0);
            let data = unescape(p.get(1..).unwrap_or(b"")).ok_or("bad escaping")?;
            match kind {
                b'm' => {
                    if data.is_empty() && !want.is_empty() {
                        return Err("'m' reply without data".into());
                    }
                    if want.is_empty() && len > 0 {
                        return Err(format!("request at the end of the object answered with [{}] instead of the end marker", show(p)));
                    }
                }
                b'l' => {
                    if (off as u128 + data.len() as u128) < total as u128 && len > 0 {
                        return Err(format!("end marker sent at offset {:#x} of {:#x}", off as u128 + data.len() as u128, total));
                    }
                }
                _ => return Err(format!("reply [{}]", show(p))),
            }
            if arch {
                if !want.starts_with(&data) || (data.is_empty() && !want.is_empty() && len > 0) {
                    return Err(format!("description bytes [{}], expected [{}]", show(&data), show(&want)));
                }
                return Ok(());
            }
            if data != produced {
                return Err(format!("target produced [{}], client received [{}]", show(&produced), show(&data)));
            }
            if produced.len() < want.len().min(bl.saturating_sub(80)).min(1) {
                return Err("target was offered no room".into());
            }
            Ok(())
        });
        if !c.go(s) || !c.idle() {
            return;
        }
        if c.last_pk.is_empty() {
            return;
        }
        let p = c.last_pk[0].clone();
        c.stat.note("xfer_requests", 1);
        if !whole {
            return;
        }
        let d = unescape(&p[1..]).unwrap_or_default();
        got.extend(&d);
        off += d.len() as u64;
        rounds += 1;
        if p[0] == b'l' {
            break;
        }
        if rounds > 4000 {
            return;
        }
        if rounds > 400 && got.len() < obj.len() {
            // tiny chunks: give up without judging
            return;
        }
    }
    c.stat.note("xfer_objects_reassembled", 1);
    if got != obj {
        c.fail(vec!["P19"], "qXfer", format!("reassembled {} bytes differ from the object ({} bytes)", got.len(), obj.len()));
    }
}

// ------------------------------------------------------------ host I/O

pub fn host_io(c: &mut Ctx) {
    let fam = &["P20"];
    let r = c.r.below(8);
    let has = c.has(F::HOSTIO)
        && match r {
            0 => c.has(F::HOPEN),
            1 => c.has(F::HCLOSE),
            2 => c.has(F::HPREAD),
            3 => c.has(F::HPWRITE),
            4 => c.has(F::HFSTAT),
            5 => c.has(F::HUNLINK),
            6 => c.has(F::HREADLINK),
            _ => c.has(F::HSETFS),
        };
    let fd = c.r.num(32);
    let room = c.m.limit.saturating_sub(48) / 2;
    let name = c.payload(room.min(200));
    let nm = hxb(&mut c.r, &name);
    // expected failure reply
    let hfail = |c: &mut Ctx| -> Option<(FailKind, u32)> {
        if !c.r.chance(c.fault, 100) {
            return None;
        }
        let k = match c.r.below(4) {
            0 => FailKind::Fatal(c.r.next() as u32),
            1 => {
                let i = c.r.below(8) as u8;
                if no_std_errors() {
                    FailKind::Errno(i)
                } else {
                    FailKind::IoKind(i)
                }
            }
            _ => FailKind::Errno(c.r.below(20) as u8),
        };
        c.inject("hio", 0, k);
        let code = match k {
            FailKind::Errno(i) => HERRNO[i as usize],
            #[cfg(feature = "std")]
            FailKind::IoKind(i) => IOKINDS[i as usize].1,
            _ => 9999,
        };
        Some((k, code))
    };
    let malformed = has && bad(c);
    match r {
        0 => {
            let mut flags: u64 = (c.r.next() & 0xe08) | (c.r.below(3) as u64);
            if c.r.chance(1, 4) {
                flags |= c.r.next() & 0xf0000000;
            }
            let mode: u64 = match c.r.below(4) {
                0 => 0,
                _ => (c.r.next() & 0o777) | *c.r.pick(&[0u64, 0o100000, 0o40000]),
            };
            if malformed {
                let b = match c.r.below(6) {
                    0 => format!("vFile:open:{},{:x},{:x}", nm, flags | 1 << *c.r.pick(&[2, 4, 5, 6, 7, 8, 12, 15, 20, 27]), mode),
                    1 => format!("vFile:open:{},{:x},{:x}", nm, flags, mode | 1 << *c.r.pick(&[9, 10, 11, 16, 20, 31])),
                    2 => format!("vFile:open:{},{:x}", nm, flags),
                    3 => format!("vFile:open:{}", nm),
                    4 => format!("vFile:open:{}zz,{:x},{:x}", nm, flags, mode),
                    _ => "vFile:open".to_string(),
                };
                c.go(Step::cmd("vFile:open-rejected", fam, b).reject());
                return;
            }
            let s = Step::cmd("vFile:open", fam, format!("vFile:open:{},{},{}", nm, hx(&mut c.r, flags), hx(&mut c.r, mode)));
            if !has {
                c.go(s.tag("P17"));
                return;
            }
            let fdv = c.r.num(32) as u32;
            c.world().hfd = fdv;
            let s = s.ev(ev("h_open").b(&name).n(flags).n(mode));
            let f = hfail(c);
            hres(c, s, f, format!("F{}", num(fdv as u64)).into_bytes());
        }
        1 => {
            if malformed {
                let b = *c.r.pick(&["vFile:close", "vFile:close:", "vFile:close:zz", "vFile:close:100000000"]);
                c.go(Step::cmd("vFile:close-rejected", fam, b).reject());
                return;
            }
            let s = Step::cmd("vFile:close", fam, format!("vFile:close:{}", hx(&mut c.r, fd)));
            if !has {
                c.go(s.tag("P17"));
                return;
            }
            let s = s.ev(ev("h_close").n(fd));
            let f = hfail(c);
            hzero(c, s, f);
        }
        2 => {
            let count = match c.r.below(4) {
                0 => u64::MAX,
                1 => c.r.num(40),
                _ => c.amount(3000) as u64,
            };
            let count = if c.m.small { count.min(12) } else { count };
            let off = c.r.num(64);
            if malformed {
                let b = match c.r.below(3) {
                    0 => format!("vFile:pread:{:x},{:x}", fd, count),
                    1 => format!("vFile:pread:{:x}", fd),
                    _ => format!("vFile:pread:{:x},{:x},1{:016x}", fd, count, off),
                };
                c.go(Step::cmd("vFile:pread-rejected", fam, b).reject());
                return;
            }
            let s = Step::cmd(
                "vFile:pread",
                fam,
                format!("vFile:pread:{},{},{}", hx(&mut c.r, fd), hx(&mut c.r, count), hx(&mut c.r, off)),
            );
            if !has {
                c.go(s.tag("P17"));
                return;
            }
            let d = c.payload(3000);
            c.world().hdata = d.clone();
            let f = hfail(c);
            let bl = c.m.buflen;
            let s = s.evf(move |e| {
                if e.len() == 1 && e[0].op == "h_pread" && e[0].n == vec![fd, count, off] {
                    Ok(())
                } else {
                    Err(format!("pread fd {:x} count {:x} offset {:x}: target calls {:?}", fd, count, off, e))
                }
            });
            if let Some((k, code)) = f {
                c.go(herr(s, k, code));
                return;
            }
            c.go(s.replyf(move |e, p| {
                let x = &e[0].b[0];
                if x.is_empty() && !d.is_empty() && count > 0 && bl > 0 {
                    return Err("target was offered no room".into());
                }
                data_reply(x, p)
            }));
        }
        3 => {
            let data = {
                let room = c.m.limit.saturating_sub(60) / 2;
                c.payload(room.min(700))
            };
            let off = c.addr();
            if malformed {
                let b: Vec<u8> = match c.r.below(4) {
                    0 => {
                        let w = c.wide();
                        let mut b = format!("vFile:pwrite:{:x},{},", fd, w).into_bytes();
                        b.extend(escape(&data));
                        b
                    }
                    1 => format!("vFile:pwrite:{:x},{:x}", fd, off).into_bytes(),
                    2 => format!("vFile:pwrite:{:x}", fd).into_bytes(),
                    _ => format!("vFile:pwrite:{:x},{:x},a}}", fd, off).into_bytes(),
                };
                c.go(Step::cmd("vFile:pwrite-rejected", fam, b).reject());
                return;
            }
            let mut b = format!("vFile:pwrite:{},{},", hx(&mut c.r, fd), hx(&mut c.r, off)).into_bytes();
            b.extend(esc(&mut c.r, &data));
            let s = Step::cmd("vFile:pwrite", fam, b);
            if !has {
                c.go(s.tag("P17"));
                return;
            }
            let ret = c.addr();
            c.world().hret = ret;
            let s = s.ev(ev("h_pwrite").n(fd).n(off).b(&data));
            let f = hfail(c);
            hres(c, s, f, format!("F{}", num(ret)).into_bytes());
        }
        4 => {
            if malformed {
                c.go(Step::cmd("vFile:fstat-rejected", fam, "vFile:fstat:q").reject());
                return;
            }
            let s = Step::cmd("vFile:fstat", fam, format!("vFile:fstat:{}", hx(&mut c.r, fd)));
            if !has {
                c.go(s.tag("P17"));
                return;
            }
            let mut st = [0u64; 13];
            for (i, v) in st.iter_mut().enumerate() {
                *v = match i {
                    2 => c.r.next() & 0o140777,
                    7..=9 => c.r.num(64),
                    _ => c.r.num(32),
                };
            }
            c.world().hstat = st;
            let mut x: Vec<u8> = vec![];
            for (i, v) in st.iter().enumerate() {
                if (7..=9).contains(&i) {
                    x.extend(v.to_be_bytes())
                } else {
                    x.extend((*v as u32).to_be_bytes())
                }
            }
            let s = s.ev(ev("h_fstat").n(fd));
            if let Some((k, code)) = hfail(c) {
                c.go(herr(s, k, code));
                return;
            }
            c.go(s.replyf(move |_, p| data_reply(&x, p)));
        }
        5 => {
            if malformed {
                c.go(Step::cmd("vFile:unlink-rejected", fam, format!("vFile:unlink:zz{}", nm)).reject());
                return;
            }
            let s = Step::cmd("vFile:unlink", fam, format!("vFile:unlink:{}", nm));
            if !has {
                c.go(s.tag("P17"));
                return;
            }
            let s = s.ev(ev("h_unlink").b(&name));
            let f = hfail(c);
            hzero(c, s, f);
        }
        6 => {
            if malformed {
                c.go(Step::cmd("vFile:readlink-rejected", fam, format!("vFile:readlink:zz{}", nm)).reject());
                return;
            }
            let s = Step::cmd("vFile:readlink", fam, format!("vFile:readlink:{}", nm));
            if !has {
                c.go(s.tag("P17"));
                return;
            }
            let d = c.payload(1500);
            c.world().hdata = d.clone();
            let f = hfail(c);
            let s = s.evf(move |e| {
                if e.len() == 1 && e[0].op == "h_readlink" && e[0].b[0] == name {
                    Ok(())
                } else {
                    Err(format!("readlink [{}]: target calls {:?}", show(&name), e))
                }
            });
            if let Some((k, code)) = f {
                c.go(herr(s, k, code));
                return;
            }
            c.go(s.replyf(move |e, p| {
                let x = &e[0].b[1];
                if x.is_empty() && !d.is_empty() {
                    return Err("target was offered no room".into());
                }
                data_reply(x, p)
            }));
        }
        _ => {
            if malformed {
                c.go(Step::cmd("vFile:setfs-rejected", fam, "vFile:setfs:").reject());
                return;
            }
            let pid = if c.r.chance(1, 3) { 0 } else { c.r.num(63) };
            let s = Step::cmd("vFile:setfs", fam, format!("vFile:setfs:{}", hx(&mut c.r, pid)));
            if !has {
                c.go(s.tag("P17"));
                return;
            }
            let s = s.ev(ev("h_setfs").n(pid));
            let f = hfail(c);
            hzero(c, s, f);
        }
    }
}
fn herr(s: Step, k: FailKind, code: u32) -> Step {
    match k {
        FailKind::Fatal(_) => s.fault(k),
        _ => s.tag("P18").replyf(move |_, p| {
            let want = format!("F-1,{}", num(code as u64));
            if p == want.as_bytes() {
                Ok(())
            } else {
                Err(format!("expected [{}], got [{}]", want, show(p)))
            }
        }),
    }
}
fn hres(c: &mut Ctx, s: Step, f: Option<(FailKind, u32)>, ok: Vec<u8>) {
    let s = match f {
        Some((k, code)) => herr(s, k, code),
        None => s.reply(ok),
    };
    c.go(s);
}
fn hzero(c: &mut Ctx, s: Step, f: Option<(FailKind, u32)>) {
    let s = match f {
        Some((k, code)) => herr(s, k, code),
        None => s.replyf(|_, p| {
            if p == b"F0" || p == b"F00" {
                Ok(())
            } else {
                Err(format!("expected F0, got [{}]", show(p)))
            }
        }),
    };
    c.go(s);
}
fn data_reply(x: &[u8], p: &[u8]) -> Result<(), String> {
    let semi = p.iter().position(|b| *b == b';').ok_or(format!("reply [{}]", show(p)))?;
    if p.first() != Some(&b'F') {
        return Err(format!("reply [{}]", show(p)));
    }
    let n = parse_hex_u128(&p[1..semi]).ok_or("bad count")?;
    let d = unescape(&p[semi + 1..]).ok_or("bad escaping")?;
    if d != x {
        return Err(format!("target supplied [{}], client received [{}]", show(x), show(&d)));
    }
    if n != x.len() as u128 {
        return Err(format!("count {:#x}, {:#x} bytes supplied", n, x.len()));
    }
    Ok(())
}

// ------------------------------------------------------------ extended mode

pub fn ext_mode(c: &mut Ctx) {
    let fam = &["P21"];
    let ext = c.has(F::EXT);
    let room = c.m.limit.saturating_sub(24) / 2;
    match c.r.below(13) {
        0 => {
            let s = Step::cmd("!", fam, "!");
            if !ext {
                c.go(s.tag("P17"));
                return;
            }
            let s = s.ok().evs(if c.w.borrow().cfg.mini() { vec![] } else { vec![ev("on_start")] });
            let s = match c.draw_fault("on_start", true) {
                Some(k) => s.fault(k),
                None => s,
            };
            c.go(s);
        }
        1 => {
            let b = c.r.next() as u8;
            // GDB itself sends a single digit
            let s = Step::cmd("R", fam, if b < 16 && c.r.chance(1, 2) || b < 64 { format!("R{:x}", b & 15) } else { format!("R{:02x}", b) });
            if !ext {
                c.go(s.tag("P17"));
                return;
            }
            let s = s.ev(ev("restart")).none();
            let s = match c.draw_fault("restart", true) {
                Some(k) => s.fault(k),
                None => s,
            };
            c.go(s);
        }
        2 => {
            let pid = c.r.num(63).max(1);
            let b = format!("vAttach;{}", hx(&mut c.r, pid));
            let s = Step::cmd("vAttach", fam, b);
            if !ext {
                c.go(s.tag("P17"));
                return;
            }
            if bad(c) {
                let b = *c.r.pick(&["vAttach", "vAttach;", "vAttach;0", "vAttach;zz", "vAttach;10000000000000000"]);
                c.go(Step::cmd("vAttach-malformed", fam, b).reject());
                return;
            }
            if !c.has(F::EPID) {
                if bad(c) || bad(c) {
                    c.go(s.reject());
                }
                return;
            }
            let s = s.ev(ev("attach").n(pid));
            if let Some(k) = c.draw_fault("attach", false) {
                c.go(s.fault(k));
                return;
            }
            let live = c.live();
            reasonable(c, s.tag("P12"), live);
        }
        3 | 4 => {
            // vRun
            let file = c.payload((room / 3).min(100));
            let mut args: Vec<Vec<u8>> = vec![];
            if !c.m.small && room > 200 && c.r.chance(1, 5) {
                // any number of arguments
                let mut left = room - file.len() - 8;
                for _ in 0..c.r.range(5, 300) {
                    let a = c.payload(c.m.limit.min(3));
                    if a.len() + 1 > left {
                        break;
                    }
                    left -= a.len() + 1;
                    args.push(a);
                }
            } else {
                for _ in 0..c.r.below(5) {
                    let a = c.payload((room / 8).min(60));
                    args.push(a);
                }
            }
            let mut b = format!("vRun;{}", hxb(&mut c.r, &file));
            for a in &args {
                b.push(';');
                b.push_str(&hxb(&mut c.r, a));
            }
            let s = Step::cmd("vRun", fam, b);
            if !ext {
                c.go(s.tag("P17"));
                return;
            }
            if bad(c) {
                let b = *c.r.pick(&["vRun", "vRun;zz", "vRun;41;zz", "vRun;41;42;4g"]);
                c.go(Step::cmd("vRun-malformed", fam, b).reject());
                return;
            }
            let mut e = ev("run").opt(if file.is_empty() { None } else { Some(&file) });
            for a in &args {
                e = e.b(a);
            }
            let s = s.ev(e);
            if let Some(k) = c.draw_fault("run", false) {
                c.go(s.fault(k));
                return;
            }
            let live = c.live();
            reasonable(c, s.tag("P12"), live);
        }
        5 | 6 => {
            let pid = c.r.num(63).max(1);
            let with = c.r.chance(2, 3);
            let b = if with { format!("qAttached:{}", hx(&mut c.r, pid)) } else { "qAttached".to_string() };
            if bad(c) {
                let b = *c.r.pick(&["qAttached:zz", "qAttached:0", "qAttached:"]);
                c.go(Step::cmd("qAttached-malformed", fam, b).reject());
                return;
            }
            let s = Step::cmd("qAttached", fam, b);
            if !ext || !with {
                c.go(s.reply("1"));
                return;
            }
            let att = c.r.chance(1, 2);
            c.world().attached = att;
            let s = s.ev(ev("qattached").n(pid)).reply(if att { "1" } else { "0" });
            let s = match c.draw_fault("qattached", false) {
                Some(k) => s.fault(k),
                None => s,
            };
            c.go(s);
        }
        7 => {
            let on = c.r.chance(1, 2);
            let s = Step::cmd("QDisableRandomization", fam, format!("QDisableRandomization:{}", on as u8));
            if !ext || !c.has(F::EASLR) {
                c.go(s.tag("P17"));
                return;
            }
            if bad(c) {
                let b = *c.r.pick(&["QDisableRandomization", "QDisableRandomization:", "QDisableRandomization:zz"]);
                c.go(Step::cmd("QDisableRandomization-malformed", fam, b).reject());
                return;
            }
            // the request says "disable": 1 means randomization off
            let s = s.ok().evf(move |e| {
                if e.len() == 1 && e[0].op == "aslr" && e[0].n == vec![!on as u64] {
                    Ok(())
                } else {
                    Err(format!("QDisableRandomization:{}: target calls {:?}", on as u8, e))
                }
            });
            let s = match c.draw_fault("aslr", false) {
                Some(k) => s.fault(k),
                None => s,
            };
            c.go(s);
        }
        8 => {
            let on = c.r.chance(1, 2);
            let s = Step::cmd("QStartupWithShell", fam, format!("QStartupWithShell:{}", on as u8));
            if !ext || !c.has(F::ESHELL) {
                c.go(s.tag("P17"));
                return;
            }
            let s = s.ok().ev(ev("shell").n(on as u64));
            let s = match c.draw_fault("shell", false) {
                Some(k) => s.fault(k),
                None => s,
            };
            c.go(s);
        }
        9 => {
            let d = c.payload(room.min(200));
            let s = Step::cmd("QSetWorkingDir", fam, format!("QSetWorkingDir:{}", hxb(&mut c.r, &d)));
            if !ext || !c.has(F::EWD) {
                c.go(s.tag("P17"));
                return;
            }
            if bad(c) {
                let b = *c.r.pick(&["QSetWorkingDir", "QSetWorkingDir:zz"]);
                c.go(Step::cmd("QSetWorkingDir-malformed", fam, b).reject());
                return;
            }
            let s = s.ok().ev(ev("wd").opt(if d.is_empty() { None } else { Some(&d) }));
            let s = match c.draw_fault("wd", false) {
                Some(k) => s.fault(k),
                None => s,
            };
            c.go(s);
        }
        10 | 11 => {
            // set variable
            let mut key = c.payload((room / 3).min(60));
            key.retain(|b| *b != b'=');
            let val = c.payload((room / 2).min(200));
            let mut kv = key.clone();
            kv.push(b'=');
            kv.extend(&val);
            let s = Step::cmd("QEnvironmentHexEncoded", fam, format!("QEnvironmentHexEncoded:{}", hxb(&mut c.r, &kv)));
            if !ext || !c.has(F::EENV) {
                c.go(s.tag("P17"));
                return;
            }
            if bad(c) {
                let b = match c.r.below(3) {
                    0 => "QEnvironmentHexEncoded".to_string(),
                    1 => format!("QEnvironmentHexEncoded:{}zz", hex(&kv)),
                    _ => format!("QEnvironmentHexEncoded:{}", hex(&key)),
                };
                c.go(Step::cmd("QEnvironmentHexEncoded-malformed", fam, b).reject());
                return;
            }
            let s = s.ok().ev(ev("set_env").b(&key).opt(if val.is_empty() { None } else { Some(&val) }));
            let s = match c.draw_fault("env", false) {
                Some(k) => s.fault(k),
                None => s,
            };
            c.go(s);
        }
        _ => {
            let key = c.payload(room.min(60));
            let un = c.r.chance(1, 2);
            let b = if un { format!("QEnvironmentUnset:{}", hxb(&mut c.r, &key)) } else { "QEnvironmentReset".to_string() };
            let s = Step::cmd(if un { "QEnvironmentUnset" } else { "QEnvironmentReset" }, fam, b);
            if !ext || !c.has(F::EENV) {
                c.go(s.tag("P17"));
                return;
            }
            let s = s.ok().ev(if un { ev("rm_env").b(&key) } else { ev("reset_env") });
            let s = match c.draw_fault("env", false) {
                Some(k) => s.fault(k),
                None => s,
            };
            c.go(s);
        }
    }
}

pub fn ends(c: &mut Ctx) {
    let fam = &["P26"];
    let ext = c.has(F::EXT);
    match c.r.below(3) {
        0 => {
            let b = if c.r.chance(1, 2) { "D".to_string() } else { format!("D;{:x}", c.r.num(62).max(1)) };
            let s = Step::cmd("D", fam, b).ok().st(XS::Disc(Why::Disconnect));
            if c.go(s) {
                maybe_revive(c);
            }
        }
        _ => {
            let v = c.r.chance(1, 2);
            let pid = c.r.num(62).max(1);
            let b = if v { format!("vKill;{}", hx(&mut c.r, pid)) } else { "k".to_string() };
            let s = Step::cmd(if v { "vKill" } else { "k" }, fam, b).tag("P21");
            if !ext {
                // no reply to a kill outside extended mode is required
                let s = if v {
                    s.pkf(|_, p| {
                        if p.is_empty() || (p.len() == 1 && p[0] == b"OK") {
                            Ok(())
                        } else {
                            Err(format!("{:?}", p.iter().map(|p| show(p)).collect::<Vec<_>>()))
                        }
                    })
                } else {
                    s.none()
                };
                if c.go(s.st(XS::Disc(Why::Kill))) {
                    maybe_revive(c);
                }
                return;
            }
            let yes = c.r.chance(1, 2);
            c.world().kill_yes = yes;
            let e = if v { ev("kill").n(pid) } else { ev("kill") };
            let s = s.ev(e);
            if let Some(k) = c.draw_fault("kill", false) {
                c.go(s.fault(k));
                return;
            }
            let s = s.ok().st(if yes { XS::Disc(Why::Kill) } else { XS::Idle });
            if c.go(s) {
                maybe_revive(c);
            }
        }
    }
}

// ------------------------------------------------------------ monitor

pub fn monitor(c: &mut Ctx) {
    let fam = &["P22"];
    let room = c.m.limit.saturating_sub(12) / 2;
    let cmd = c.payload(room.min(200));
    let b = format!("qRcmd,{}", hxb(&mut c.r, &cmd));
    if !c.has(F::MON) {
        c.go(Step::cmd("qRcmd-unsupported", fam, b).tag("P17"));
        return;
    }
    if bad(c) {
        let b = *c.r.pick(&["qRcmdx", "qRcmd,zz", "qRcmd;41", "qRcmd41"]);
        c.go(Step::cmd("qRcmd-malformed", fam, b).reject());
        return;
    }
    let mut mon = vec![];
    let mut out: Vec<u8> = vec![];
    for _ in 0..c.r.below(7) {
        match c.r.below(5) {
            0 => mon.push(MonOp::Flush),
            1 => {
                let n = c.r.below(20);
                let s: String = (0..n).map(|_| *c.r.pick(&['a', 'é', '\n', '#', '$', '}', '*', '0', '𝄞'])).collect();
                out.extend(s.bytes());
                mon.push(MonOp::Fmt(s));
            }
            2 => {
                let s = format!("{:x}", c.r.next());
                out.extend(s.bytes());
                out.push(b'\n');
                mon.push(MonOp::Ln(s));
            }
            _ => {
                let mut d = c.payload(700);
                if no_alloc() && d.is_empty() {
                    continue;
                }
                if c.r.chance(1, 25) && !d.is_empty() {
                    // one write far bigger than any packet
                    let n = 700 + c.r.below(70_000) as usize;
                    let k = d.len();
                    d = (0..n).map(|i| d[i % k] ^ (i / k) as u8).collect();
                }
                out.extend(&d);
                mon.push(MonOp::Raw(d));
            }
        }
    }
    if no_alloc() {
        mon.retain(|m| !matches!(m, MonOp::Flush));
        mon.retain(|m| !matches!(m, MonOp::Fmt(s) if s.is_empty()));
    }
    c.world().mon = mon;
    let s = Step::cmd("qRcmd", fam, b).ev(ev("monitor").b(&cmd));
    let chk = move |p: &[Vec<u8>], fin: bool| -> Result<(), String> {
        let mut got: Vec<u8> = vec![];
        let o: &[Vec<u8>] = if fin {
            if p.last().map(|p| p.as_slice()) != Some(b"OK") {
                return Err(format!("monitor command not confirmed: {:?}", p.last().map(|p| show(p))));
            }
            &p[..p.len() - 1]
        } else {
            p
        };
        for x in o {
            if x.first() != Some(&b'O') {
                return Err(format!("unexpected packet [{}]", show(x)));
            }
            let d = unhex(&x[1..]).ok_or("console packet isn't hex")?;
            if d.is_empty() {
                return Err("empty console packet".into());
            }
            got.extend(d);
        }
        if fin && got != out {
            return Err(format!("printed [{}], client received [{}]", show(&out), show(&got)));
        }
        Ok(())
    };
    if let Some(k) = c.draw_fault("monitor", true) {
        let s = s.fault(k).pkf(move |_, p| chk(p, false));
        c.go(s);
        return;
    }
    let ok = c.go(s.pkf(move |_, p| chk(p, true)));
    if ok {
        let n = c.last_pk.len() as u64 - 1;
        c.stat.note("console_packets", n);
    }
}

// ------------------------------------------------------------ catch syscalls, offsets

pub fn catch_offsets(c: &mut Ctx) {
    let fam = &["P23"];
    if c.r.chance(1, 2) {
        let s = Step::cmd("qOffsets", fam, "qOffsets");
        if !c.has(F::SECOFF) {
            c.go(s.tag("P17"));
            return;
        }
        let (t, d, o) = (c.addr(), c.addr(), if c.r.chance(1, 2) { Some(c.addr()) } else { None });
        let sec = c.r.chance(1, 2);
        c.world().offsets = (sec, t, d, o);
        let r = if sec {
            format!("Text={};Data={};Bss={}", num(t), num(d), num(o.unwrap_or(d)))
        } else {
            match o {
                Some(o) => format!("TextSeg={};DataSeg={}", num(t), num(o)),
                None => format!("TextSeg={}", num(t)),
            }
        };
        let s = s.ev(ev("offsets")).reply(r);
        let s = match c.draw_fault("offsets", true) {
            Some(k) => s.fault(k),
            None => s,
        };
        c.go(s);
        return;
    }
    let (b, e) = match c.r.below(4) {
        0 => ("QCatchSyscalls:0".to_string(), ev("catch_off")),
        1 => ("QCatchSyscalls:1".to_string(), ev("catch_all")),
        _ => {
            let mut e = ev("catch");
            let mut b = "QCatchSyscalls:1".to_string();
            let many = !c.m.small && c.m.limit > 400 && c.r.chance(1, 5);
            let max = c.m.limit.saturating_sub(70);
            for _ in 0..c.r.range(1, if c.m.small { 3 } else if many { 300 } else { 12 }) {
                if many && b.len() > max {
                    break;
                }
                let n = c.addr();
                b.push_str(&format!(";{}", hx(&mut c.r, n)));
                e = e.n(n);
            }
            (b, e)
        }
    };
    let s = Step::cmd("QCatchSyscalls", fam, b.clone());
    if !c.has(F::CATCH) {
        c.go(s.tag("P17"));
        return;
    }
    if bad(c) {
        if c.r.chance(1, 2) {
            let w = c.wide();
            let b = format!("{};{}", if b.len() > 16 { b } else { "QCatchSyscalls:1".into() }, w);
            // may have been passed on in part, but must not be confirmed
            let mut s = Step::cmd("QCatchSyscalls-wide", fam, b).reject();
            s.ev = XE::Any;
            c.go(s);
        } else {
            let b = *c.r.pick(&["QCatchSyscalls", "QCatchSyscalls:2", "QCatchSyscalls:1;zz", "QCatchSyscalls:"]);
            c.go(Step::cmd("QCatchSyscalls-malformed", fam, b).reject());
        }
        return;
    }
    let s = s.ok().ev(e);
    let s = match c.draw_fault("catch", false) {
        Some(k) => s.fault(k),
        None => s,
    };
    c.go(s);
}

// ------------------------------------------------------------ corrupted packets

/// a well-formed command with side effects
fn tempting(c: &mut Ctx) -> Vec<u8> {
    let a = c.addr();
    match c.r.below(10) {
        0 => format!("M{:x},2:0102", a).into_bytes(),
        1 => format!("Z0,{:x},1", a).into_bytes(),
        2 => b"vCont;c".to_vec(),
        3 => b"c".to_vec(),
        4 => b"k".to_vec(),
        5 => b"D".to_vec(),
        6 => b"vRun;41".to_vec(),
        7 => format!("m{:x},4", a).into_bytes(),
        8 => b"QStartNoAckMode".to_vec(),
        _ => b"g".to_vec(),
    }
}

pub fn corrupt(c: &mut Ctx) {
    let fam = &["P04"];
    let body = tempting(c);
    let mut f = frame(&body);
    let l = f.len();
    let kind = c.r.below(7);
    let label: &'static str;
    match kind {
        0 => {
            label = "bad-checksum";
            let i = l - 1 - c.r.below(2);
            let old = (f[i] as char).to_digit(16).unwrap() as usize;
            let new = (old + c.r.range(1, 15)) % 16;
            f[i] = char::from_digit(new as u32, 16).unwrap() as u8;
        }
        1 => {
            label = "nonhex-checksum";
            let i = l - 1 - c.r.below(2);
            f[i] = *c.r.pick(b"ghzGZ -+/:@`xX\x00\xff\x03$#");
        }
        2 => {
            label = "bit-flip";
            loop {
                let i = c.r.range(1, l - 4);
                let b = f[i] ^ (1 << c.r.below(8));
                if b != b'#' {
                    f[i] = b;
                    break;
                }
            }
        }
        3 => {
            label = "byte-swap";
            // two different body bytes exchanged plus a dropped one
            if body.len() < 3 {
                return;
            }
            let i = c.r.range(1, l - 4);
            if f[i] == 0 {
                return;
            }
            f.remove(i);
        }
        4 => {
            label = "nack";
            f = vec![b'-'];
        }
        5 => {
            label = "stray-byte";
            let b = loop {
                let b = c.r.next() as u8;
                if !matches!(b, b'$' | b'+' | b'-' | 3) {
                    break b;
                }
            };
            f = vec![b];
        }
        _ => {
            label = "oversized";
            if c.m.owned {
                return;
            }
            let over = match c.r.below(3) {
                0 => 1,
                1 => c.r.range(1, 4),
                _ => c.r.range(1, 200),
            };
            let total = c.m.buflen + over;
            let mut body = body;
            if total < 4 + body.len() {
                body = vec![];
            }
            // pad with something harmless to the command's meaning
            if total < 4 {
                f = frame(&body);
                f.truncate(total);
            } else {
                while body.len() < total - 4 {
                    body.push(b'0');
                }
                f = frame(&body);
            }
        }
    }
    let s = Step::raw(label, fam, f).st(XS::Proto);
    c.go(s);
}

// ------------------------------------------------------------ lldb

pub fn rand_name(c: &mut Ctx) -> String {
    let n = c.r.range(1, if c.m.small { 4 } else { 12 });
    let uni = c.r.chance(1, 10);
    (0..n)
        .map(|_| if uni && c.r.chance(1, 3) { 'é' } else { *c.r.pick(&['a', 'b', 'x', 'r', '0', '1', '0', '0', '_', '-', ' ']) })
        .collect()
}

pub fn rand_lreg(c: &mut Ctx) -> LRegSpec {
    let us = |c: &mut Ctx| -> usize {
        let n = match c.r.below(4) {
            0 => c.r.next(),
            1 => *c.r.pick(&[0, 9, 10, 99, 100, 1000, 65535, u64::MAX]),
            _ => c.r.below(600) as u64,
        };
        n as usize
    };
    let list = |c: &mut Ctx| -> Option<Vec<usize>> {
        if c.r.chance(1, 2) {
            return None;
        }
        let n = c.r.below(if c.m.small { 3 } else { 6 });
        Some(
            (0..n)
                .map(|_| if c.r.chance(1, 4) { c.r.next() as usize } else { c.r.below(300) })
                .collect(),
        )
    };
    LRegSpec {
        name: rand_name(c),
        alt: if c.r.chance(1, 2) { Some(rand_name(c)) } else { None },
        bitsize: us(c),
        offset: us(c),
        enc: c.r.below(4),
        fmt: c.r.below(12),
        set: rand_name(c),
        gcc: if c.r.chance(1, 2) { Some(us(c)) } else { None },
        dwarf: if c.r.chance(1, 2) { Some(us(c)) } else { None },
        generic: if c.r.chance(1, 2) { Some(c.r.below(13)) } else { None },
        cont: list(c),
        inv: list(c),
    }
}

pub fn lldb(c: &mut Ctx) {
    let fam = &["P29"];
    let id: u64 = match c.r.below(5) {
        0 => u64::MAX,
        1 => c.r.next(),
        _ => c.r.below(64) as u64,
    };
    let spec = match c.r.below(6) {
        0 => LReg::None,
        1 => LReg::Done,
        _ => LReg::Reg(rand_lreg(c)),
    };
    let ovr = c.has(F::LLDBOVR);
    if id == u64::MAX && matches!(spec, LReg::None) {
        return;
    }
    let supp = c.has(F::USELLDB) && (c.has(F::LLDBARCH) || ovr);
    {
        let mut w = c.w.borrow_mut();
        w.lregs.clear();
        w.lregs.insert(id as usize, spec.clone());
    }
    if supp && bad(c) {
        let b = *c.r.pick(&["qRegisterInfo", "qRegisterInfozz", "qRegisterInfo10000000000000000"]);
        c.go(Step::cmd("qRegisterInfo-malformed", fam, b).reject());
        return;
    }
    let s = Step::cmd("qRegisterInfo", fam, format!("qRegisterInfo{}", hx(&mut c.r, id)));
    if !supp {
        c.go(s.tag("P17"));
        return;
    }
    let s = if ovr { s.ev(ev("lldb_reg").n(id)) } else { s };
    if ovr {
        if let Some(k) = c.draw_fault("lldb_reg", true) {
            c.go(s.fault(k));
            return;
        }
    }
    match spec {
        LReg::None if !ovr => {
            c.go(s);
        }
        LReg::Done | LReg::None => {
            c.go(s.some_err());
        }
        LReg::Reg(r) => {
            c.go(s.replyf(move |_, p| {
                let p = String::from_utf8(p.to_vec()).map_err(|_| "not UTF-8")?;
                let mut got: Vec<(String, String)> = vec![];
                if !p.ends_with(';') {
                    return Err(format!("[{}] isn't a list of ';'-terminated pairs", p));
                }
                for kv in p[..p.len() - 1].split(';') {
                    let (k, v) = kv.split_once(':').ok_or(format!("[{}] in [{}]", kv, p))?;
                    if !v.is_empty() {
                        got.push((k.into(), v.into()));
                    }
                }
                let mut want: Vec<(String, String)> = vec![("name".into(), r.name.clone())];
                if let Some(a) = &r.alt {
                    want.push(("alt-name".into(), a.clone()))
                }
                want.push(("bitsize".into(), r.bitsize.to_string()));
                want.push(("offset".into(), r.offset.to_string()));
                want.push(("encoding".into(), ENC[r.enc].into()));
                want.push(("format".into(), FMT[r.fmt].into()));
                want.push(("set".into(), r.set.clone()));
                if let Some(a) = r.gcc {
                    want.push(("gcc".into(), a.to_string()))
                }
                if let Some(a) = r.dwarf {
                    want.push(("dwarf".into(), a.to_string()))
                }
                if let Some(a) = r.generic {
                    want.push(("generic".into(), GENERIC[a].into()))
                }
                let l = |v: &Vec<usize>| v.iter().map(|x| num(*x as u64)).collect::<Vec<_>>().join(",");
                if let Some(a) = r.cont.as_ref().filter(|a| !a.is_empty()) {
                    want.push(("container-regs".into(), l(a)))
                }
                if let Some(a) = r.inv.as_ref().filter(|a| !a.is_empty()) {
                    want.push(("invalidate-regs".into(), l(a)))
                }
                let (mut g, mut w) = (got.clone(), want.clone());
                g.sort();
                w.sort();
                if g == w {
                    Ok(())
                } else {
                    Err(format!("register description {:?}, expected {:?}", got, want))
                }
            }));
        }
    }
}

// ------------------------------------------------------------ tracepoints

fn tp_num(c: &mut Ctx) -> u64 {
    if c.r.chance(3, 4) {
        c.r.range(1, 40) as u64
    } else {
        c.r.num(64)
    }
}

/// no completion, no confirmation
fn not_confirmed(s: Step) -> Step {
    s.evf(|e| match e.iter().find(|e| matches!(e.op, "t_done" | "t_begin" | "t_src" | "t_buf" | "t_frame")) {
        Some(x) => Err(format!("refused tracepoint request reached the target: {:?}", x)),
        None => Ok(()),
    })
    .reject()
}

pub fn trace_define(c: &mut Ctx) {
    let fam = &["P24"];
    if !c.has(F::TRACE) {
        let b = c
            .r
            .pick(&["QTinit", "QTDP:1:1000:E:0:0", "QTDP:-1:1000:R03", "QTStart", "QTStop", "QTBuffer:circular:1", "QTFrame:1"])
            .to_string();
        c.go(Step::cmd("trace-unsupported", &["P17"], b));
        return;
    }
    let a = c.addr();
    let n = tp_num(c);
    match c.r.below(10) {
        0 => simple_trace(c),
        1 => {
            // QTBuffer
            let (txt, e, ok) = match c.r.below(6) {
                0 => ("circular:1".to_string(), ev("t_buf").n(0).n(1), true),
                1 => ("circular:0".to_string(), ev("t_buf").n(0).n(0), true),
                2 => ("size:-1".to_string(), ev("t_buf").n(1), true),
                3 if bad(c) => {
                    let t = c.r.pick(&["circular:2", "circular:", "size:", "size:zz", "shape:1", "circular"]).to_string();
                    (t, ev("t_buf"), false)
                }
                _ => {
                    let v = c.r.num(64);
                    (format!("size:{}", hx(&mut c.r, v)), ev("t_buf").n(1).n(v), true)
                }
            };
            let s = Step::cmd("QTBuffer", fam, format!("QTBuffer:{}", txt));
            if !ok {
                c.go(not_confirmed(s));
                return;
            }
            let s = s.ev(e);
            match c.draw_fault("t_buf", false) {
                Some(k) => c.go(s.fault(k)),
                None => c.go(s.ok()),
            };
        }
        2 | 3 => {
            // source fragments
            let kind = c.r.below(3);
            let room = c.m.limit.saturating_sub(100) / 2;
            let data = c.payload(room.min(300));
            let (start, slen) = (c.r.num(32), c.r.num(32));
            let an = hx(&mut c.r, a);
            let nn = hx(&mut c.r, n);
            let body = format!(
                "QTDPsrc:{}:{}:{}:{}:{}:{}",
                nn,
                an,
                ["at", "cond", "cmd"][kind],
                hx(&mut c.r, start),
                hx(&mut c.r, slen),
                hxb(&mut c.r, &data)
            );
            if !c.has(F::TSRC) {
                c.go(Step::cmd("QTDPsrc-unsupported", &["P17"], body));
                return;
            }
            if bad(c) {
                let w = c.wide();
                let b = match c.r.below(4) {
                    0 => format!("QTDPsrc:{}:{}:at:0:1:41", nn, w),
                    1 => format!("QTDPsrc:{}:{}:foo:0:1:41", nn, an),
                    2 => format!("QTDPsrc:{}:{}:at:1{:08x}:1:41", nn, an, start),
                    _ => format!("QTDPsrc:{}:{}:at:0", nn, an),
                };
                c.go(not_confirmed(Step::cmd("QTDPsrc-malformed", fam, b)));
                return;
            }
            let s = Step::cmd("QTDPsrc", fam, body)
                .ev(ev("t_src").n(n).n(a).n(kind as u64).n(start).n(slen).b(&data));
            match c.draw_fault("t_src", false) {
                Some(k) => c.go(s.fault(k)),
                None => c.go(s.ok()),
            };
        }
        _ => {
            // a whole definition: create, then any number of extensions
            let (en, st, pa) = (c.r.chance(2, 3), c.r.num(64), c.r.num(64));
            let more = c.r.chance(2, 3);
            let nn = hx(&mut c.r, n);
            let an = hx(&mut c.r, a);
            let base = format!(
                "QTDP:{}:{}:{}:{}:{}",
                nn,
                an,
                if en { "E" } else { "D" },
                hx(&mut c.r, st),
                hx(&mut c.r, pa)
            );
            if bad(c) {
                let b = match c.r.below(7) {
                    0 => {
                        let l = c.r.pick(&["F5", "S", "X1,22"]).to_string();
                        format!("{}:{}{}", base, l, if more { "-" } else { "" })
                    }
                    1 => format!("{}:Q9", base),
                    2 => format!("QTDP:{}:{}:E:0:0", nn, c.wide()),
                    3 => format!("QTDP:{}:{}:Z:0:0", nn, an),
                    4 => format!("QTDP:{}:{}:E:0", nn, an),
                    5 => format!("QTDP:zz:{}:E:0:0", an),
                    _ => format!("QTDP:{}:{}:E:1{:016x}:0", nn, an, st),
                };
                c.go(not_confirmed(Step::cmd("QTDP-malformed", fam, b)));
                return;
            }
            let s = Step::cmd("QTDP", fam, format!("{}{}", base, if more { "-" } else { "" }))
                .ev(ev("t_begin").n(n).n(a).n(en as u64).n(st).n(pa));
            if let Some(k) = c.draw_fault("t_begin", false) {
                c.go(s.fault(k));
                return;
            }
            if !more {
                let s = s.ev(ev("t_done").n(n));
                match c.draw_fault("t_done", false) {
                    Some(k) => c.go(s.fault(k)),
                    None => c.go(s.ok()),
                };
                return;
            }
            if !c.go(s.ok()) {
                return;
            }
            let parts = c.r.range(1, 3);
            for i in 0..parts {
                let last = i + 1 == parts;
                if !trace_extend(c, n, a, !last) {
                    return;
                }
            }
        }
    }
}

fn simple_trace(c: &mut Ctx) {
    let (b, op): (&str, &'static str) =
        *c.r.pick(&[("QTinit", "t_init"), ("QTStart", "t_start"), ("QTStop", "t_stop")]);
    let s = Step::cmd(op, &["P24"], b).ev(ev(op));
    match c.draw_fault(op, false) {
        Some(k) => c.go(s.fault(k)),
        None => c.go(s.ok()),
    };
}

fn trace_extend(c: &mut Ctx, n: u64, a: u64, more: bool) -> bool {
    let fam = &["P24"];
    let mut body = format!("QTDP:-{}:{}:", hx(&mut c.r, n), hx(&mut c.r, a));
    let mut evs = vec![];
    let k = c.r.range(1, 4);
    let bad_at = if bad(c) { Some(c.r.below(k)) } else { None };
    let mut refused = false;
    for i in 0..k {
        if Some(i) == bad_at {
            let t = match c.r.below(8) {
                0 => "S".to_string(),
                1 => "M-1,0,4".to_string(),
                2 => "Q".to_string(),
                3 => "R0g".to_string(),
                4 => "X5,0102".to_string(),
                5 => "X3".to_string(),
                6 => "X8000000000000001,22".to_string(),
                _ => "Xffffffffffffffff,2200".to_string(),
            };
            body.push_str(&t);
            refused = true;
            break;
        }
        let room = c.m.limit.saturating_sub(body.len() + 24) / 2;
        if c.r.chance(1, 2) {
            let m = c.payload(room.min(40));
            let m = if m.is_empty() { vec![3] } else { m };
            body.push_str(&format!("R{}", hxb(&mut c.r, &m)));
            evs.push(ev("t_act").n(n).n(0).b(&m));
        } else {
            let x = c.payload(room.min(120));
            body.push_str(&format!("X{},{}", hx(&mut c.r, x.len() as u64), hxb(&mut c.r, &x)));
            evs.push(ev("t_act").n(n).n(2).b(&x));
        }
    }
    if refused {
        let s = Step::cmd("QTDP-extend-refused", fam, body);
        c.go(s
            .evf(move |e| {
                // actions before the refused one may or may not be delivered
                if e.len() <= evs.len() && e.iter().zip(evs.iter()).all(|(a, b)| a == b) {
                    Ok(())
                } else {
                    Err(format!("refused definition led to target calls {:?}", e))
                }
            })
            .reject());
        return false;
    }
    if more {
        body.push('-')
    }
    let s = Step::cmd("QTDP-extend", fam, body);
    if c.fmode() && c.r.chance(c.fault, 100) && !evs.is_empty() {
        let at = c.r.below(evs.len());
        let k = match c.r.below(4) {
            0 => FailKind::Fatal(c.r.next() as u32),
            1 => FailKind::NonFatal,
            2 => FailKind::IoRaw(12),
            _ => FailKind::Errno(c.r.next() as u8),
        };
        c.inject("t_act", at, k);
        // a later failure must not hide a fatal one
        if at + 1 < evs.len() && c.r.chance(1, 2) {
            c.inject("t_act", at + 1, FailKind::Errno(7));
        }
        let fatal = matches!(k, FailKind::Fatal(_));
        let s = s.evf(move |e| {
            let acts: Vec<_> = e.iter().filter(|e| e.op == "t_act").collect();
            if e.len() != acts.len() {
                return Err(format!("definition completed although an action failed: {:?}", e));
            }
            if acts.len() < at + 1 || acts.len() > evs.len() || !acts.iter().zip(evs.iter()).all(|(a, b)| *a == b) {
                return Err(format!("expected actions {:?}, got {:?}", evs, e));
            }
            if fatal && acts.len() > at + 1 {
                return Err(format!("target called again after a fatal error: {:?}", e));
            }
            Ok(())
        });
        if fatal {
            c.go(s.fault(k));
        } else {
            // any of the injected errors
            c.go(s.tag("P18").some_err());
        }
        return false;
    }
    let mut s = s.evs(evs);
    if !more {
        s = s.ev(ev("t_done").n(n));
        if let Some(k) = c.draw_fault("t_done", false) {
            c.go(s.fault(k));
            return false;
        }
    }
    c.go(s.ok())
}

pub fn gen_tps(c: &mut Ctx) {
    let n = if c.r.chance(1, 8) { 0 } else { c.r.range(1, 4) };
    let mut tps: Vec<TPoint> = vec![];
    for i in 0..n {
        let num = match c.r.below(3) {
            0 => i + 1,
            1 => i * 16 + 9,
            _ => (tp_num(c) as usize).min(usize::MAX - 1),
        };
        if tps.iter().any(|t| t.num == num) {
            continue;
        }
        let mut acts = vec![];
        for _ in 0..c.r.below(4) {
            acts.push(match c.r.below(3) {
                0 => TAct::Regs(c.payload(20)),
                1 => TAct::Mem(if c.r.chance(1, 2) { Some(c.r.num(64)) } else { None }, c.addr(), c.r.num(64)),
                _ => TAct::Expr(c.payload(60)),
            });
        }
        let mut srcs = vec![];
        if c.has(F::TSRC) {
            for _ in 0..c.r.below(3) {
                srcs.push(TSrc {
                    kind: c.r.below(3),
                    start: c.r.num(32) as u32,
                    slen: c.r.num(32) as u32,
                    bytes: c.payload(40),
                });
            }
        }
        tps.push(TPoint {
            num,
            addr: c.addr(),
            enabled: c.r.chance(1, 2),
            step: c.r.num(64),
            pass: c.r.num(64),
            acts,
            srcs,
            src_first: c.r.chance(1, 4),
        });
    }
    c.world().tps = tps;
}

/// parse a number of an upload reply
fn pnum(s: &str) -> Option<u64> {
    if s.is_empty() || s.len() > 16 {
        return None;
    }
    u64::from_str_radix(s, 16).ok()
}

/// records expected from an enumeration, in re-parsed form
fn tp_records(tps: &[TPoint]) -> Vec<Vec<String>> {
    let mut v = vec![];
    for t in tps {
        v.push(vec![
            "T".into(),
            format!("{:x}", t.num),
            format!("{:x}", t.addr),
            if t.enabled { "E" } else { "D" }.into(),
            format!("{:x}", t.step),
            format!("{:x}", t.pass),
        ]);
        let mut acts = vec![];
        for a in &t.acts {
            let x = match a {
                TAct::Regs(m) => format!("R{}", hex(m)),
                TAct::Mem(b, o, l) => {
                    format!("M{},{:x},{:x}", b.map(|b| format!("{:x}", b)).unwrap_or("-1".into()), o, l)
                }
                TAct::Expr(x) => format!("X{:x},{}", x.len(), hex(x)),
            };
            acts.push(vec!["A".into(), format!("{:x}", t.num), format!("{:x}", t.addr), x]);
        }
        let mut srcs = vec![];
        for s in &t.srcs {
            srcs.push(vec![
                "Z".into(),
                format!("{:x}", t.num),
                format!("{:x}", t.addr),
                ["at", "cond", "cmd"][s.kind].into(),
                format!("{:x}", s.start),
                format!("{:x}", s.slen),
                hex(&s.bytes),
            ]);
        }
        if t.src_first {
            v.extend(srcs);
            v.extend(acts);
        } else {
            v.extend(acts);
            v.extend(srcs);
        }
    }
    v
}
fn norm(s: &str) -> String {
    if s == "-1" {
        return s.into();
    }
    match pnum(s) {
        Some(v) => format!("{:x}", v),
        None => format!("?{}", s),
    }
}
fn parse_record(p: &[u8]) -> Result<Vec<String>, String> {
    let t = std::str::from_utf8(p).map_err(|_| "not text".to_string())?;
    let (k, rest) = t.split_at(1);
    let f: Vec<&str> = rest.split(':').collect();
    let mut v = vec![k.to_string()];
    match (k, f.len()) {
        ("T", 5) => v.extend([norm(f[0]), norm(f[1]), f[2].into(), norm(f[3]), norm(f[4])]),
        ("A", 3) => {
            v.extend([norm(f[0]), norm(f[1])]);
            let (ak, ar) = f[2].split_at(f[2].len().min(1));
            match ak {
                "R" => v.push(f[2].to_lowercase()),
                "M" => {
                    let x: Vec<String> = ar.split(',').map(norm).collect();
                    v.push(format!("M{}", x.join(",")));
                }
                "X" => {
                    let mut x = ar.splitn(2, ',');
                    let l = norm(x.next().unwrap_or(""));
                    v.push(format!("X{},{}", l, x.next().unwrap_or("?").to_lowercase()));
                }
                _ => return Err(format!("unknown action [{}]", f[2])),
            }
            let l = v.last_mut().unwrap();
            if let Some(rest) = l.strip_prefix('r') {
                *l = format!("R{}", rest);
            }
        }
        ("Z", 6) => v.extend([
            norm(f[0]),
            norm(f[1]),
            f[2].into(),
            norm(f[3]),
            norm(f[4]),
            f[5].to_lowercase(),
        ]),
        _ => return Err(format!("unparsable record [{}]", t)),
    }
    Ok(v)
}

fn enum_evs(e: &[Ev]) -> Result<(), String> {
    match e.iter().find(|e| !matches!(e.op, "t_enum" | "t_enum_act" | "t_enum_src")) {
        Some(x) => Err(format!("unexpected target call {:?} during tracepoint upload", x)),
        None => Ok(()),
    }
}

pub fn trace_upload(c: &mut Ctx) {
    let fam = &["P25"];
    if !c.has(F::TRACE) {
        let b = c.r.pick(&["qTfP", "qTsP", "qTStatus", "qTP:1:1000", "qTBuffer:0,10", "qTfV", "qTsV"]).to_string();
        c.go(Step::cmd("trace-unsupported", &["P17"], b));
        return;
    }
    match c.r.below(10) {
        0..=3 => {
            gen_tps(c);
            let want = tp_records(&c.w.borrow().tps.clone());
            let rounds = if c.r.chance(1, 4) { 2 } else { 1 };
            for round in 0..rounds {
                // an aborted enumeration first
                let upto = if round + 1 < rounds { c.r.below(want.len() + 1) } else { usize::MAX };
                let mut i = 0;
                loop {
                    let body = if i == 0 { "qTfP" } else { "qTsP" };
                    let done = i >= want.len();
                    let s = Step::cmd(if i == 0 { "qTfP" } else { "qTsP" }, fam, body).evf(enum_evs);
                    let op = if i == 0 {
                        Some("t_enum")
                    } else if !done {
                        Some(match want[i][0].as_str() {
                            "T" => "t_enum",
                            "A" => "t_enum_act",
                            _ => "t_enum_src",
                        })
                    } else {
                        None
                    };
                    if let Some(op) = op {
                        if let Some(k) = c.draw_fault(op, false) {
                            let w = want.get(i).cloned();
                            let code = k.code();
                            let s = s.fault(k);
                            c.go(match code {
                                None => s,
                                Some(code) => s.replyf(move |_, p| {
                                    if p == format!("E{:02x}", code).as_bytes() || parse_record(p).ok() == w {
                                        Ok(())
                                    } else {
                                        Err(format!("expected E{:02x} or the record {:?}, got [{}]", code, w, show(p)))
                                    }
                                }),
                            });
                            return;
                        }
                    }
                    if done {
                        if !c.go(s.replyf(|_, p| {
                            if p.is_empty() || p == b"l" {
                                Ok(())
                            } else {
                                Err(format!("expected the end of the upload, got [{}]", show(p)))
                            }
                        })) {
                            return;
                        }
                        // stays at the end
                        if i > 0 && c.r.chance(1, 2) {
                            c.go(Step::cmd("qTsP-past-end", fam, "qTsP").evf(enum_evs).replyf(|_, p| {
                                if p.is_empty() || p == b"l" {
                                    Ok(())
                                } else {
                                    Err(format!("expected the end of the upload, got [{}]", show(p)))
                                }
                            }));
                        }
                        c.stat.note("tracepoint_uploads", 1);
                        break;
                    }
                    let w = want[i].clone();
                    if !c.go(s.replyf(move |_, p| {
                        if p.is_empty() {
                            return Err(format!("upload ended early, missing {:?}", w));
                        }
                        let g = parse_record(p)?;
                        if g == w {
                            Ok(())
                        } else {
                            Err(format!("expected record {:?}, got {:?} [{}]", w, g, show(p)))
                        }
                    })) {
                        return;
                    }
                    c.stat.note("tracepoint_records", 1);
                    i += 1;
                    if i > upto {
                        break;
                    }
                    // unrelated command in between
                    if c.r.chance(1, 10) && !c.go(Step::cmd("qTfV", fam, "qTfV")) {
                        return;
                    }
                }
            }
        }
        4 => {
            let (n, a) = (tp_num(c), c.addr());
            let (h, b) = (c.r.num(64), c.r.num(64));
            c.world().tpstat = (h, b);
            if bad(c) {
                let t = match c.r.below(3) {
                    0 => format!("qTP:{:x}:{}", n, c.wide()),
                    1 => format!("qTP:{:x}", n),
                    _ => format!("qTP:zz:{:x}", a),
                };
                c.go(Step::cmd("qTP-malformed", fam, t).reject());
                return;
            }
            let body = format!("qTP:{}:{}", hx(&mut c.r, n), hx(&mut c.r, a));
            let s = Step::cmd("qTP", fam, body).ev(ev("t_stat").n(n).n(a));
            match c.draw_fault("t_stat", false) {
                Some(k) => c.go(s.fault(k)),
                None => c.go(s.reply(format!("V{}:{}", num(h), num(b)))),
            };
        }
        5 | 6 => {
            // status
            let ts = match c.r.below(11) {
                0 => None,
                1 => Some(TStatus::Running),
                2 => Some(TStatus::NotRunning),
                3 => Some(TStatus::NotRun),
                4 => Some(TStatus::Stop(None)),
                5 => Some(TStatus::Stop(Some(c.payload(60)))),
                6 => Some(TStatus::Full),
                7 => Some(TStatus::Disconnected),
                8 => Some(TStatus::PassCount(c.r.num(64) as usize)),
                9 => Some(TStatus::Error(c.payload(60), c.r.num(64) as usize)),
                _ => Some(TStatus::Unknown),
            };
            let twice = c.r.chance(1, 6);
            let mut inf = vec![];
            for _ in 0..c.r.below(5) {
                let v = c.r.num(64) as usize;
                inf.push(match c.r.below(7) {
                    0 => TInfo::Frames(v),
                    1 => TInfo::Created(v),
                    2 => TInfo::Size(v),
                    3 => TInfo::Free(v),
                    4 => TInfo::Circular(c.r.chance(1, 2)),
                    5 => TInfo::Disc(c.r.chance(1, 2)),
                    _ => TInfo::Other(format!("username:{:x}", v)),
                });
            }
            {
                let mut w = c.world();
                w.tstatus = ts.clone();
                w.tstatus_twice = twice;
                w.tinfo = inf.clone();
            }
            let mut x = String::new();
            if let Some(t) = &ts {
                x.push_str(match t {
                    TStatus::Running => "T1",
                    _ => "T0",
                });
                match t {
                    TStatus::Running | TStatus::NotRunning => {}
                    TStatus::NotRun => x.push_str(";tnotrun:0"),
                    TStatus::Stop(None) => x.push_str(";tstop:0"),
                    TStatus::Stop(Some(t)) => x.push_str(&format!(";tstop:{}:0", hex(t))),
                    TStatus::Full => x.push_str(";tfull:0"),
                    TStatus::Disconnected => x.push_str(";tdisconnected:0"),
                    TStatus::PassCount(n) => x.push_str(&format!(";tpasscount:{}", num(*n as u64))),
                    TStatus::Error(t, n) => x.push_str(&format!(";terror:{}:{}", hex(t), num(*n as u64))),
                    TStatus::Unknown => x.push_str(";tunknown:0"),
                }
                for i in &inf {
                    x.push_str(&match i {
                        TInfo::Frames(n) => format!(";tframes:{}", num(*n as u64)),
                        TInfo::Created(n) => format!(";tcreated:{}", num(*n as u64)),
                        TInfo::Size(n) => format!(";tsize:{}", num(*n as u64)),
                        TInfo::Free(n) => format!(";tfree:{}", num(*n as u64)),
                        TInfo::Circular(b) => format!(";circular:{}", num(*b as u64)),
                        TInfo::Disc(b) => format!(";disconn:{}", *b as u64),
                        TInfo::Other(s) => format!(";{}", s),
                    });
                }
            }
            let s = Step::cmd("qTStatus", fam, "qTStatus").ev(ev("t_status"));
            if let Some(k) = c.draw_fault("t_status", false) {
                c.go(s.fault(k));
                return;
            }
            if ts.is_none() {
                c.go(s);
                return;
            }
            let s = s.ev(ev("t_info"));
            match c.draw_fault("t_info", false) {
                Some(k) => {
                    c.go(partial_or_err(s, k, x.into_bytes()))
                }
                None => c.go(s.reply(x)),
            };
        }
        7 | 8 => {
            // buffer contents, either one request or the whole buffer
            let n = c.amount(1500);
            let data = c.r.payload(n);
            c.world().tbuf = data.clone();
            if bad(c) {
                let t = c.r.pick(&["qTBuffer:0", "qTBuffer:zz,1", "qTBuffer:0,1g", "qTBuffer:0,1ffffffffffffffff"]).to_string();
                c.go(Step::cmd("qTBuffer-malformed", fam, t).reject());
                return;
            }
            let mut off = match c.r.below(4) {
                0 => c.r.num(64),
                1 => c.r.below(n + 3) as u64,
                _ => 0,
            };
            let mut got: Vec<u8> = vec![];
            let whole = off == 0;
            for _ in 0..40 {
                let len = match c.r.below(6) {
                    0 => c.r.num(64),
                    1 => 0,
                    _ => c.r.range(1, if c.m.small { 12 } else { 400 }) as u64,
                };
                let body = format!("qTBuffer:{},{}", hx(&mut c.r, off), hx(&mut c.r, len));
                let s = Step::cmd("qTBuffer", fam, body).ev(ev("t_req").n(off).n(len));
                let want = slice_of(&data, off, len);
                if let Some(k) = c.draw_fault("t_req", false) {
                    c.go(partial_or_err(s, k, hex(&want).into_bytes()));
                    return;
                }
                let end = want.is_empty();
                let s = if end { s.reply("l") } else { s.reply(hex(&want)) };
                if !c.go(s) {
                    return;
                }
                if end && len > 0 {
                    break;
                }
                got.extend(&want);
                off = off.saturating_add(want.len() as u64);
            }
            if whole && got.len() == data.len() && !data.is_empty() {
                c.stat.note("trace_buffers_reassembled", 1);
            }
        }
        _ => {
            // frame selection
            let (a, b) = (c.addr(), c.addr());
            let n = c.r.num(64);
            let t = tp_num(c);
            let (an, bn) = (hx(&mut c.r, a), hx(&mut c.r, b));
            let (txt, e) = match c.r.below(5) {
                0 => (hx(&mut c.r, n), ev("t_frame").n(0).n(n)),
                1 => (format!("pc:{}", an), ev("t_frame").n(1).n(a)),
                2 => (format!("tdp:{}", hx(&mut c.r, t)), ev("t_frame").n(2).n(t)),
                3 => (format!("range:{}:{}", an, bn), ev("t_frame").n(3).n(a).n(b)),
                _ => (format!("outside:{}:{}", an, bn), ev("t_frame").n(4).n(a).n(b)),
            };
            if bad(c) {
                let w = c.wide();
                let t = match c.r.below(5) {
                    0 => format!("pc:{}", w),
                    1 => format!("range:{}", an),
                    2 => format!("outside:{}:{}", an, w),
                    3 => "zz".to_string(),
                    _ => "tdp:".to_string() + "g",
                };
                c.go(not_confirmed(Step::cmd("QTFrame-malformed", &["P24", "P25"], format!("QTFrame:{}", t))));
                return;
            }
            let f = c.r.num(64);
            let h = tp_num(c);
            let fr = match c.r.below(4) {
                0 => vec![],
                1 => vec![(false, f)],
                2 => vec![(false, f), (true, h)],
                _ => vec![(true, h), (false, f)],
            };
            c.world().frame = fr.clone();
            let mut x = String::new();
            for (hit, v) in &fr {
                x.push_str(&format!("{}{}", if *hit { "T" } else { "F" }, num(*v)));
            }
            if fr.is_empty() {
                x = "F-1".into()
            }
            let s = Step::cmd("QTFrame", &["P24", "P25"], format!("QTFrame:{}", txt)).ev(e);
            match c.draw_fault("t_frame", false) {
                Some(k) => c.go(partial_or_err(s, k, x.into_bytes())),
                None => c.go(s.reply(x)),
            };
        }
    }
}

/// The target reported data and then failed: either the error or the data
/// arrives, never an error glued to data.
fn partial_or_err(s: Step, k: FailKind, data: Vec<u8>) -> Step {
    let s = s.fault(k).tag("P01");
    match k.code() {
        None => s,
        Some(code) => s.replyf(move |_, p| {
            if p == format!("E{:02x}", code).as_bytes() || (!data.is_empty() && p == data) {
                Ok(())
            } else {
                Err(format!("expected the error code or the data [{}] alone, got [{}]", show(&data), show(p)))
            }
        }),
    }
}
