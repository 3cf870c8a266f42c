//! Raw client byte streams: template-generated packets, damaged packets,
//! interrupts and noise, without any model of what the answer must be.
use crate::drive::*;
use crate::util::*;
use crate::wire::*;

/// `@n` number, `@t` thread id, `@p` pid, `@h` hex bytes, `@b` escaped binary,
/// `@s` signal
pub const TEMPLATES: &[&str] = &[
    "?", "g", "G@h", "m@n,@n", "M@n,@n:@h", "X@n,@n:@b", "p@n", "P@n=@h", "c", "c@n", "s", "s@n", "C@s", "S@s", "bc", "bs", "D", "D;@p", "k", "!", "H@w@t",
    "Hg@t", "Hc@t", "T@t", "R@n", "Z0,@n,@n", "Z1,@n,@n", "Z2,@n,@n", "Z3,@n,@n", "Z4,@n,@n", "z0,@n,@n", "z1,@n,@n", "z2,@n,@n", "z3,@n,@n", "z4,@n,@n",
    "z9,@n,@n", "vCont?", "vCont;c", "vCont;c:@t", "vCont;s:@t", "vCont;s:@t;c", "vCont;C@s:@t;c", "vCont;S@s:@t", "vCont;r@n,@n:@t;c", "vCont;t", "vCont",
    "vCont;", "vAttach;@p", "vRun;@h;@h", "vRun", "vRun;", "vKill;@p", "vMustReplyEmpty", "vFile:open:@h,@n,@n", "vFile:close:@n", "vFile:pread:@n,@n,@n",
    "vFile:pwrite:@n,@n,@b", "vFile:fstat:@n", "vFile:unlink:@h", "vFile:readlink:@h", "vFile:setfs:@n", "vFile:nope:@n", "qSupported",
    "qSupported:multiprocess+;swbreak+", "qSupported:multiprocess-;xmlRegisters=i386", "qC", "qAttached", "qAttached:@p", "qfThreadInfo", "qsThreadInfo",
    "qThreadExtraInfo,@t", "qOffsets", "qRcmd,@h", "QStartNoAckMode", "QDisableRandomization:@n", "QEnvironmentHexEncoded:@h", "QEnvironmentUnset:@h",
    "QEnvironmentReset", "QStartupWithShell:@n", "QSetWorkingDir:@h", "QSetWorkingDir:", "QCatchSyscalls:1", "QCatchSyscalls:1;@n;@n", "QCatchSyscalls:0",
    "qXfer:features:read:target.xml:@n,@n", "qXfer:features:read:@b:@n,@n", "qXfer:memory-map:read::@n,@n", "qXfer:exec-file:read:@p:@n,@n",
    "qXfer:exec-file:read::@n,@n", "qXfer:auxv:read::@n,@n", "qXfer:libraries-svr4:read::@n,@n", "qHostInfo", "qProcessInfo", "qRegisterInfo@n", "qTStatus",
    "qTP:@n:@n", "qTfP", "qTsP", "qTBuffer:@n,@n", "QTinit", "QTStart", "QTStop", "QTFrame:@n", "QTFrame:pc:@n", "QTFrame:tdp:@n", "QTFrame:range:@n:@n",
    "QTFrame:outside:@n:@n", "QTDP:@n:@n:E:@n:@n", "QTDP:@n:@n:D:@n:@n-", "QTDP:-@n:@n:R@n-", "QTDP:-@n:@n:M@n,@n,@n", "QTDP:-@n:@n:X@n,@h-",
    "QTDPsrc:@n:@n:at:0:5:@h", "QTDPsrc:@n:@n:cond:@n:@n:@h", "QTBuffer:circular:@n", "QTBuffer:size:@n", "QTBuffer:size:-1", "qTV:@n", "QTro:@n,@n", "QTNotes:@h",
    "qSymbol::", "jThreadsInfo", "QNonStop:1", "QPassSignals:@n", "A@n,@n,@h", "vStopped", "qCRC:@n,@n", "qSearch:memory:@n;@n;@b", "@b", "", "qGetTIBAddr:@n",
];

fn num(r: &mut Rng, tame: bool) -> String {
    match if tame { 7 + r.below(5) } else { r.below(10) } {
        10 => format!("{:x}", r.num(16)),
        0 => "0".into(),
        1 => "-1".into(),
        2 => format!("{:x}", r.num(64)),
        3 => format!("{:x}{:x}", r.next(), r.next()),
        4 => String::new(),
        5 => format!("{:X}", r.num(32)),
        6 => "ffffffffffffffff".into(),
        _ => format!("{:x}", r.below(64)),
    }
}

fn fill(r: &mut Rng, t: &str, tame: bool) -> Vec<u8> {
    let mut out = vec![];
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'@' && i + 1 < b.len() {
            i += 1;
            match b[i] {
                b'n' => out.extend(num(r, tame).bytes()),
                b't' => out.extend(
                    match if tame { 2 + r.below(2) * 5 } else { r.below(9) } {
                        0 => "0".to_string(),
                        1 => "-1".into(),
                        2 => format!("p{:x}.{:x}", r.below(3), r.below(4)),
                        3 => "p-1.-1".into(),
                        4 => format!("p{:x}", r.below(3)),
                        5 => format!("p{}.{}", num(r, tame), num(r, tame)),
                        6 => num(r, tame),
                        _ => format!("{:x}", 1 + r.below(4)),
                    }
                    .bytes(),
                ),
                b'p' => out.extend(format!("{:x}", r.num(16)).bytes()),
                b's' => out.extend(format!("{:02x}", r.below(256)).bytes()),
                b'w' => out.push(*r.pick(b"gcqG")),
                b'h' => {
                    let n = if r.chance(1, 8) { r.below(300) } else { r.below(14) };
                    let v = r.payload(n);
                    out.extend(hex(&v).bytes());
                    if !tame && r.chance(1, 12) {
                        out.push(*r.pick(b"0gz:;,"));
                    }
                }
                b'b' => {
                    let n = if r.chance(1, 8) { r.below(300) } else { r.below(14) };
                    let v = r.payload(n);
                    if !tame && r.chance(1, 6) {
                        // broken escaping
                        out.extend(v.iter().filter(|c| **c != b'#' && **c != b'$'));
                    } else {
                        out.extend(escape(&v));
                    }
                }
                c => out.push(c),
            }
        } else {
            out.push(b[i]);
        }
        i += 1;
    }
    out
}

pub fn body(r: &mut Rng, clean: bool) -> Vec<u8> {
    let tame = clean && !r.chance(1, 16);
    let mut t = *r.pick(TEMPLATES);
    while tame && (matches!(t, "vCont" | "vCont;" | "vRun" | "D" | "k" | "G@h") || (t.starts_with("QTDP:-") && !t.contains("X@n"))) {
        t = *r.pick(TEMPLATES);
    }
    let mut b = fill(r, t, tame);
    // mutations
    let n = match if tame { 9 } else { r.below(6) } {
        0 => 1,
        1 => 1 + r.below(3),
        _ => 0,
    };
    for _ in 0..n {
        match r.below(7) {
            0 if !b.is_empty() => {
                let i = r.below(b.len());
                b.remove(i);
            }
            1 => {
                let i = r.below(b.len() + 1);
                b.insert(i, *r.pick(b":;,+-=.p0 f\x00\xff}*?"));
            }
            2 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] = r.next() as u8;
            }
            3 => {
                let k = r.below(b.len() + 1);
                b.truncate(k);
            }
            4 => {
                let t = *r.pick(TEMPLATES);
                let x = fill(r, t, false);
                let k = r.below(x.len() + 1);
                b.extend_from_slice(&x[k..]);
            }
            5 if !b.is_empty() => {
                let i = r.below(b.len());
                let c = b[i];
                for _ in 0..r.below(40) {
                    b.insert(i, c);
                }
            }
            _ => b.extend(r.bytes(3)),
        }
    }
    b.retain(|c| *c != b'#' && *c != b'$');
    b
}

/// one piece of client input; `clean`: only well-formed packets, '+' and
/// interrupts (so that the session survives)
pub fn piece(r: &mut Rng, clean: bool) -> Vec<u8> {
    match r.below(if clean { 24 } else { 40 }) {
        0 | 1 => vec![3],
        2 => vec![b'+'; 1 + r.below(3)],
        24 => {
            // wrong checksum
            let mut f = frame(&body(r, clean));
            let l = f.len();
            f[l - 1] = *r.pick(b"0123456789abcdefgx \x00");
            f
        }
        25 => {
            let n = r.below(20);
            r.bytes(n)
        }
        26 => {
            let mut f = frame(&body(r, clean));
            f.truncate(r.below(f.len() + 1));
            f
        }
        27 => vec![b'-'],
        28 => frame(&vec![*r.pick(b"mXG0\xff}"); 200]),
        29 => {
            let mut v = body(r, clean);
            v.insert(0, b'$');
            v.extend(body(r, clean));
            v
        }
        30 => b"$#00".to_vec(),
        _ => frame(&body(r, clean)),
    }
}

pub fn stop(r: &mut Rng) -> Stop {
    let tid = 1 + r.below(4);
    let sr = match r.below(12) {
        0 => SR::DoneStep,
        1 => SR::Exited(r.next() as u8),
        2 => SR::Terminated(r.next() as u8),
        3 | 4 => SR::Signal(r.next() as u8),
        5 => SR::SigThread(tid, r.next() as u8),
        6 => SR::SwBreak(tid),
        7 => SR::HwBreak(tid),
        8 => SR::Watch(tid, 2 + r.below(3) as u8, r.num(16)),
        9 => SR::Replay(if r.chance(1, 2) { Some(tid) } else { None }, r.chance(1, 2)),
        10 => SR::Catch(if r.chance(1, 2) { Some(tid) } else { None }, r.num(16), r.chance(1, 2)),
        _ => SR::DoneStep,
    };
    Stop { sr, single: r.chance(1, 4) }
}
