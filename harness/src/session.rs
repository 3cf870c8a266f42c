//! Plans and runs whole sessions.
use crate::conn::Conn;
use crate::drive::*;
use crate::engine::*;
use crate::gens::*;
use crate::target::*;
use crate::util::*;
use std::rc::Rc;

pub type FamFn = fn(&mut Ctx);
pub struct Fam {
    pub name: &'static str,
    pub f: FamFn,
    pub props: &'static [&'static str],
}
macro_rules! fams {
    ($($f:ident: $($p:literal)*;)*) => {
        pub const FAMS: &[Fam] = &[$(Fam { name: stringify!($f), f: $f, props: &[$($p),*] }),*];
    };
}
fams!(
    mem_read: "P07" "P11" "P02" "P06";
    mem_write: "P08" "P11";
    regs_all: "P09" "P11";
    regs_one: "P09" "P11";
    mutate_threads: "P11";
    select_thread: "P11" "P12" "P13";
    threads: "P11" "P12" "P23";
    resume: "P13" "P14" "P15" "P12" "P26";
    ctrlc_idle: "P15";
    resume_query: "P13" "P17";
    breakpoints: "P16";
    q_supported: "P17" "P12" "P05";
    unknown: "P17";
    lookalike: "P17";
    no_ack: "P05";
    qxfer: "P19";
    host_io: "P20";
    ext_mode: "P21" "P12";
    ends: "P26";
    monitor: "P22";
    catch_offsets: "P23";
    corrupt: "P04";
    lldb: "P29";
    trace_define: "P24";
    trace_upload: "P25";
);

#[derive(Clone)]
pub struct Plan {
    pub prop: &'static str,
    pub seed: u64,
    pub bits: u32,
    pub cfg: Cfg,
    pub buf: BufCfg,
    pub wrap: Wrap,
    pub steps: usize,
    pub fault: usize,
    pub noise: bool,
    pub limit: usize,
    pub small: bool,
    pub record: bool,
    /// raw bytes after the (short) modelled part
    pub raw: bool,
    pub weights: Vec<usize>,
    /// fail the connection operation with this index
    pub fail_at: Option<(usize, u32)>,
}

pub struct Out {
    pub fails: Vec<Fail>,
    pub stat: Stats,
    pub recs: Vec<Rec>,
    pub ops: usize,
    pub optrace: Vec<u8>,
    pub last: St,
    pub failed: Option<u32>,
    pub flush_after_fail: usize,
    pub starts: usize,
    pub flushes: usize,
    pub out_len: usize,
    pub trace: Vec<String>,
}

/// flags that matter for a property
fn flags_of(prop: &str) -> &'static [F] {
    use F::*;
    match prop {
        "P08" => &[XUP],
        "P09" => &[SREG],
        "P11" | "P12" => &[MULTI, RESUME, EXT, EPID, EXTRA],
        "P13" => &[RESUME, STEP, RANGE, RSTEP, RCONT],
        "P14" | "P15" => &[RESUME, BP, SW, HW, WATCH, RSTEP, CATCH],
        "P16" => &[BP, SW, HW, WATCH],
        "P19" => &[XMLOVR, XMLARCH, USEXML, MEMMAP, EXECF, AUXV, LIBS],
        "P20" => &[HOSTIO, HOPEN, HCLOSE, HPREAD, HPWRITE, HFSTAT, HUNLINK, HREADLINK, HSETFS],
        "P21" => &[EXT, EASLR, EENV, ESHELL, EWD, EPID],
        "P22" => &[MON],
        "P23" => &[CATCH, SECOFF, EXTRA, MULTI],
        "P24" | "P25" => &[TRACE, TSRC],
        "P26" => &[RESUME],
        "P29" => &[USELLDB, LLDBOVR, LLDBARCH],
        "P05" => &[NOACK],
        _ => &[],
    }
}

pub fn gen_cfg(r: &mut Rng, prop: &str) -> Cfg {
    let mut c = Cfg::default();
    let style = r.below(10);
    for f in ALL_FLAGS {
        let on = match style {
            0..=2 => true,
            3 | 4 => r.chance(9, 10),
            _ => r.chance(1, 2),
        };
        c.set(*f, on);
    }
    // threading model and RLE are behaviour, not features
    c.set(F::MULTI, r.chance(2, 3));
    c.set(F::RLE, r.chance(2, 3));
    if prop == "P02" {
        c.set(F::RLE, r.chance(9, 10));
    }
    let fl = flags_of(prop);
    if !fl.is_empty() {
        match r.below(10) {
            0..=4 => {
                for f in fl {
                    c.set(*f, true);
                }
            }
            5..=7 => {
                // all but one of them
                for f in fl {
                    c.set(*f, true);
                }
                c.set(*r.pick(fl), false);
            }
            _ => {}
        }
    }
    fix_cfg(r, &mut c);
    c
}

pub fn fix_cfg(r: &mut Rng, c: &mut Cfg) {
    if !(c.has(F::GUARD) || (c.has(F::BP) && c.has(F::SW))) {
        if r.chance(1, 2) {
            c.set(F::GUARD, true)
        } else {
            c.set(F::BP, true);
            c.set(F::SW, true)
        }
    }
}

pub fn gen_plan(prop: &'static str, seed: u64) -> Plan {
    let mut r = Rng::new(mix(seed, 0x91a2));
    let cfg = gen_cfg(&mut r, prop);
    let bits = *r.pick(&[16, 32, 32, 64, 64, 64]);
    let owned = r.chance(1, 2) && !no_alloc();
    let len = match r.below(8) {
        0 => r.range(24, 64),
        1 => r.range(64, 200),
        2 => 4096,
        3 => 8192,
        _ => r.range(100, 2000),
    };
    let buf = BufCfg { owned, len, fill: r.next() as u8, explicit: r.chance(1, 3) };
    let limit = if owned {
        // the allocated buffer grows on demand
        if r.chance(1, 3) {
            len - 4
        } else {
            r.range(len - 4, len * 2 + 300)
        }
    } else {
        len - 4
    };
    let weights = FAMS
        .iter()
        .map(|f| {
            if f.name == "corrupt" {
                return if prop == "P04" { 30 } else { 0 };
            }
            let main = f.props.contains(&prop);
            let base = match f.name {
                "ends" => 1,
                "no_ack" => 2,
                "q_supported" => 3,
                "mutate_threads" => 2,
                "lookalike" => 1,
                _ => 4,
            };
            if main {
                base * 14
            } else {
                base
            }
        })
        .collect();
    Plan {
        prop,
        seed,
        bits,
        cfg,
        buf,
        wrap: Wrap::Plain,
        steps: if prop == "P04" { r.range(1, 12) } else { r.range(10, 60) },
        fault: match prop {
            "P18" => 25,
            "P05" | "P02" | "P04" => 0,
            _ => *r.pick(&[0, 0, 3, 8]),
        },
        noise: r.chance(1, 3),
        limit,
        small: false,
        record: false,
        raw: false,
        weights,
        fail_at: None,
    }
}

fn arch_xml(r: &mut Rng) -> &'static str {
    // few distinct texts: they are leaked
    let k = r.below(24);
    let mut q = Rng::new(k as u64 + 77);
    let n = [0, 1, 10, 100, 400, 1000, 3000, 6000][if cfg!(miri) { k % 5 } else { k % 8 }];
    let mut s = String::new();
    if k % 3 == 0 {
        s.push_str("\n  ");
    }
    s.push_str("<?xml version=\"1.0\"?><target version=\"1.0\">");
    for _ in 0..n {
        s.push(*q.pick(&['a', 'b', ' ', '#', '$', '*', '}', 'x', '0', '0', '\n', 'z', '<', '>']));
    }
    if k % 5 != 1 {
        s.push_str("</target>");
    }
    if k % 3 == 1 {
        s.push_str("\n\t ");
    }
    leak_str(s)
}

pub fn setup_world(p: &Plan, r: &mut Rng) -> Shared {
    let mut w = World::new(p.cfg, p.seed);
    w.reg_len = r.below(80);
    w.reg_style = r.below(5) as u8;
    w.threads = vec![1];
    ARCH_XML.with(|x| x.set(if p.cfg.has(F::XMLARCH) { Some(arch_xml(r)) } else { None }));
    let w: Shared = Rc::new(std::cell::RefCell::new(w));
    ARCH_LLDB.with(|x| *x.borrow_mut() = Some(w.clone()));
    w
}

pub fn model(p: &Plan) -> Model {
    Model {
        cfg: p.cfg,
        bits: p.bits,
        buflen: p.buf.len,
        owned: p.buf.owned,
        noack: false,
        multiproc: false,
        mem: vec![1],
        res: vec![1],
        deferred: vec![],
        limit: p.limit,
        small: p.small,
    }
}

pub fn run_plan(p: &Plan, heartbeat: &dyn Fn()) -> Out {
    let mut r = Rng::new(mix(p.seed, 0x5e55));
    let w = setup_world(p, &mut r);
    let conn = Conn::new();
    let c = conn.0.clone();
    {
        let mut l = c.borrow_mut();
        l.fail_at = p.fail_at;
        l.record_trace = p.record;
    }
    let nr = Rng::new(mix(p.seed, 0x0153));
    let mut go = |s: &mut dyn Sess| -> Out {
        let mut x = Ctx {
            focus: if matches!(p.prop, "P02" | "P04" | "P05" | "P06") || !FAMS.iter().any(|f| f.props.contains(&p.prop)) { "" } else { p.prop },
            r: r.clone(),
            w: w.clone(),
            c: c.clone(),
            s,
            m: model(p),
            fails: vec![],
            stat: Stats::default(),
            trace: vec![],
            recs: if p.record { Some(vec![]) } else { None },
            fault: p.fault,
            noise: p.noise,
            nr: nr.clone(),
            dead: false,
            heartbeat: Some(heartbeat),
            last_evs: vec![],
            last_pk: vec![],
        };
        x.stat.sessions = 1;
        x.stat.cfgs.insert(p.cfg.0);
        if !p.raw || p.steps > 0 {
            script(p, &mut x);
        }
        if p.raw && !x.dead {
            crate::fuzz::script(&mut x);
        }
        let l = c.borrow();
        if l.starts != 1 {
            x.fails.push(Fail {
                tags: vec!["P30"],
                label: "session-start",
                msg: format!("connection set-up ran {} times", l.starts),
            });
        }
        Out {
            fails: std::mem::take(&mut x.fails),
            stat: std::mem::take(&mut x.stat),
            recs: x.recs.take().unwrap_or_default(),
            ops: l.ops,
            optrace: l.trace.clone(),
            last: x.s.st().clone(),
            failed: l.failed,
            flush_after_fail: l.flush_after_fail,
            starts: l.starts,
            flushes: l.flushes.len(),
            out_len: l.out.len(),
            trace: std::mem::take(&mut x.trace),
        }
    };
    let out = with_bits(p.bits, w.clone(), c.clone(), p.buf, p.wrap, &mut go);
    ARCH_LLDB.with(|x| *x.borrow_mut() = None);
    out
}

fn script(p: &Plan, x: &mut Ctx) {
    mutate_threads(x);
    // the client negotiates first, mostly
    if x.r.chance(2, 3) {
        q_supported(x);
    }
    if x.r.chance(1, 4) {
        no_ack(x);
    }
    if x.m.multi() {
        // clients select a thread before they use one
        let l = x.live();
        let t = if l.is_empty() { 1 } else { l[0] };
        for op in ["Hg", "Hc"] {
            if x.alive() && x.go(Step::cmd("H-initial", &["P11"], format!("{}{:x}", op, t)).ok()) {
                if op == "Hg" {
                    x.m.mem = vec![t]
                } else {
                    x.m.res = vec![t]
                }
            }
        }
        if x.m.limit < 20 {
            x.m.mem = vec![1, t];
            x.m.res = vec![1, t];
        }
    }
    let total: usize = p.weights.iter().sum();
    for _ in 0..p.steps {
        if !x.alive() {
            break;
        }
        match x.s.st() {
            St::Idle => {}
            St::Running => {
                // a family left the target running (step skipped): end here
                break;
            }
            St::CtrlC => {
                let s = Step::input("int-none", &["P15"], Input::Int(None));
                x.go(s.st(XS::Any));
                continue;
            }
            _ => break,
        }
        if x.r.chance(1, 20) {
            mutate_threads(x);
        }
        let mut k = x.r.below(total);
        let mut f = 0;
        while k >= p.weights[f] {
            k -= p.weights[f];
            f += 1;
        }
        let before = x.stat.steps;
        (FAMS[f].f)(x);
        let n = x.stat.steps - before;
        x.stat.note(FAMS[f].name, n);
    }
}

