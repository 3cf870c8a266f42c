//! P10: register files of the built-in architectures.
//!
//! For every architecture an independent layout table lists, in the order GDB
//! documents (or the published target description gives), each register's
//! number, name in the library's register-id type, width and the bytes it must
//! occupy, computed here from the public fields of the register struct.
use crate::engine::{Fail, Stats};
use crate::sys_table::SYS;
use crate::util::*;
use gdbstub::arch::{Arch, BreakpointKind, RegId, Registers};
use gdbstub_arch::*;

/// one register as it must appear in the `g` packet
struct F {
    id: usize,
    name: String,
    size: usize,
    /// `None`: the library has no value for it and must report it unavailable
    bytes: Option<Vec<u8>>,
}
fn f(id: usize, name: impl Into<String>, b: &[u8]) -> F {
    F { id, name: name.into(), size: b.len(), bytes: Some(b.to_vec()) }
}
fn un(id: usize, name: impl Into<String>, size: usize) -> F {
    F { id, name: name.into(), size, bytes: None }
}

/// random register contents: mixes dense random values with values whose
/// bytes all differ, all-ones and zero
fn n(r: &mut Rng) -> u128 {
    match r.below(6) {
        0 => 0,
        1 => u128::MAX,
        2 => 0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10u128.wrapping_mul(1 + r.below(7) as u128),
        3 => 1u128 << r.below(128),
        _ => (r.next() as u128) << 64 | r.next() as u128,
    }
}

trait Uns: num_traits::PrimInt + Default + std::fmt::Debug {
    const W: usize;
    fn of(v: u128) -> Self;
    fn le(self) -> Vec<u8>;
}
macro_rules! uns {
    ($($t:ty)*) => {$(
        impl Uns for $t {
            const W: usize = std::mem::size_of::<$t>();
            fn of(v: u128) -> Self { v as $t }
            fn le(self) -> Vec<u8> { <$t>::to_le_bytes(self).to_vec() }
        }
    )*};
}
uns!(u16 u32 u64);

struct ArchDef<A: Arch> {
    name: &'static str,
    gen: fn(&mut Rng) -> A::Registers,
    layout: fn(&A::Registers) -> Vec<F>,
    pc: fn(&A::Registers) -> <A::Registers as Registers>::ProgramCounter,
    /// value a register without storage must be given for the bytes to be accepted
    zero_unavail: bool,
    /// the register ids this library documents beyond the `g` packet
    extra_ids: fn(usize) -> Option<(String, usize)>,
    has_ids: bool,
}

fn fail(label: &'static str, msg: String) -> Fail {
    Fail { tags: vec!["P10"], label, msg }
}

fn run_arch<A: Arch>(d: &ArchDef<A>, r: &mut Rng, st: &mut Stats) -> Vec<Fail>
where
    <A::Registers as Registers>::ProgramCounter: PartialEq + std::fmt::Debug,
{
    let mut out = vec![];
    let regs = (d.gen)(r);
    let lay = (d.layout)(&regs);
    let same = |a: &A::Registers, b: &A::Registers| {
        // compare through the independent layout (floats by their bits)
        let (x, y) = ((d.layout)(a), (d.layout)(b));
        x.iter().zip(&y).find(|(p, q)| p.bytes != q.bytes).map(|(p, q)| format!("{} is {:?} instead of {:?}", p.name, q.bytes, p.bytes))
    };
    if regs.pc() != (d.pc)(&regs) {
        out.push(fail("pc", format!("{}: pc() gives {:?} for {:?}", d.name, regs.pc(), regs)));
    }

    // --- layout
    let mut ser: Vec<Option<u8>> = vec![];
    regs.gdb_serialize(|b| ser.push(b));
    let mut off = 0;
    for x in &lay {
        let got = ser.get(off..off + x.size);
        let exp: Vec<Option<u8>> = match &x.bytes {
            Some(b) => b.iter().map(|b| Some(*b)).collect(),
            None => vec![None; x.size],
        };
        st.note("register_positions_compared", 1);
        if got != Some(&exp[..]) {
            out.push(fail(
                "layout",
                format!("{}: register {} (number {}) must occupy bytes {}..{} as {:?}, serialized as {:?}", d.name, x.name, x.id, off, off + x.size, x.bytes, got),
            ));
            break;
        }
        off += x.size;
    }
    let full = off;
    if out.is_empty() && ser[full..].iter().any(|b| b.is_some()) {
        out.push(fail("layout", format!("{}: data after the last register: {:?}", d.name, &ser[full..])));
    }

    // --- round trip, into a register file that holds other values
    let mut bytes: Vec<u8> = ser.iter().map(|b| b.unwrap_or(if d.zero_unavail { 0 } else { r.next() as u8 })).collect();
    let mut back = (d.gen)(r);
    match back.gdb_deserialize(&bytes) {
        Err(()) => out.push(fail("round-trip", format!("{}: its own {} serialized bytes are rejected", d.name, bytes.len()))),
        Ok(()) => {
            if let Some(m) = same(&regs, &back) {
                out.push(fail("round-trip", format!("{}: after serialize + deserialize {}", d.name, m)));
            }
        }
    }
    st.note("round_trips", 1);

    // --- bytes chosen by the client: what was accepted must be what is reported back
    for b in bytes.iter_mut() {
        *b = r.next() as u8;
    }
    if d.zero_unavail {
        let mut o = 0;
        for x in &lay {
            if x.bytes.is_none() {
                bytes[o..o + x.size].fill(0);
            }
            o += x.size;
        }
    }
    let mut back = (d.gen)(r);
    if back.gdb_deserialize(&bytes).is_err() {
        out.push(fail("round-trip", format!("{}: {} register bytes from a client are rejected", d.name, bytes.len())));
    } else {
        let mut o = 0;
        for x in (d.layout)(&back) {
            if let Some(b) = &x.bytes {
                if b[..] != bytes[o..o + x.size] {
                    out.push(fail("round-trip", format!("{}: client wrote {} = {:?}, stored as {:?}", d.name, x.name, &bytes[o..o + x.size], b)));
                    break;
                }
            }
            o += x.size;
        }
    }
    st.note("client_writes", 1);

    // --- short and arbitrary input
    let k = match r.below(4) {
        0 => full - 1 - r.below(full.min(20)),
        1 => r.below(full),
        2 => r.below(20),
        _ => lay.iter().take(r.below(lay.len())).map(|x| x.size).sum::<usize>(),
    };
    if (d.gen)(r).gdb_deserialize(&bytes[..k.min(bytes.len())]).is_ok() {
        out.push(fail("short-input", format!("{}: {} bytes accepted although the registers take {}", d.name, k, full)));
    }
    let l = r.below(full * 2 + 40);
    let junk = r.bytes(l);
    let _ = (d.gen)(r).gdb_deserialize(&junk);
    st.note("short_or_random_inputs", 2);
    out
}

/// every register number up to a bound, and some beyond
fn run_ids<A: Arch>(d: &ArchDef<A>, r: &mut Rng, st: &mut Stats) -> Vec<Fail> {
    if !d.has_ids {
        return vec![];
    }
    let lay = (d.layout)(&(d.gen)(r));
    let mut ids: Vec<usize> = (0..0x11000).collect();
    for _ in 0..400 {
        ids.push(r.num(64) as usize);
    }
    for id in ids {
        let exp = lay.iter().find(|x| x.id == id).map(|x| (x.name.clone(), x.size)).or_else(|| (d.extra_ids)(id));
        let got = A::RegId::from_raw_id(id).map(|(x, s)| (format!("{:?}", x), s.map(|s| s.get()).unwrap_or(0)));
        st.note("register_numbers_checked", 1);
        if exp != got {
            return vec![fail("reg-id", format!("{}: register number {} maps to {:?}, expected {:?}", d.name, id, got, exp))];
        }
    }
    vec![]
}

fn attr<'a>(tag: &'a str, k: &str) -> Option<&'a str> {
    let p = format!(" {}=\"", k);
    let i = tag.find(&p)? + p.len();
    let e = tag[i..].find('"')?;
    Some(&tag[i..i + e])
}

/// the registers a target description publishes: (name, bits, number)
fn xml_regs(xml: &str) -> Vec<(String, usize, usize)> {
    let mut clean = String::new();
    let mut rest = xml;
    while let Some(i) = rest.find("<!--") {
        clean.push_str(&rest[..i]);
        rest = &rest[i + 4..];
        match rest.find("-->") {
            Some(j) => rest = &rest[j + 3..],
            None => rest = "",
        }
    }
    clean.push_str(rest);
    let mut out = vec![];
    let mut next = 0;
    for part in clean.split("<reg ").skip(1) {
        let tag = format!(" {}", &part[..part.find('>').unwrap_or(part.len())]);
        if let Some(nr) = attr(&tag, "regnum") {
            next = nr.parse().unwrap_or(usize::MAX);
        }
        out.push((attr(&tag, "name").unwrap_or("").to_string(), attr(&tag, "bitsize").and_then(|b| b.parse().ok()).unwrap_or(0), next));
        next = next.wrapping_add(1);
    }
    out
}

/// the target description against the layout: names, numbers and widths
fn run_xml<A: Arch>(d: &ArchDef<A>, names: &[(String, usize)], arch: Option<&str>, features: &[&str], r: &mut Rng, st: &mut Stats) -> Vec<Fail> {
    let bad = |m: String| vec![fail("target-xml", format!("{}: {}", d.name, m))];
    let xml = A::target_description_xml();
    let xml = match (xml, arch.is_some() || !features.is_empty()) {
        (None, false) => return vec![],
        (Some(x), true) => x,
        (x, _) => return bad(format!("target description {:?}", x)),
    };
    if let Some(a) = arch {
        if !xml.contains(&format!("<architecture>{}</architecture>", a)) {
            return bad(format!("architecture {} missing in {}", a, show(xml.as_bytes())));
        }
    }
    for ft in features {
        if !xml.contains(&format!("<feature name=\"{}\"", ft)) {
            return bad(format!("feature {} missing", ft));
        }
    }
    let regs = xml_regs(xml);
    let lay = (d.layout)(&(d.gen)(r));
    if names.is_empty() {
        if !regs.is_empty() {
            return bad(format!("unexpected register list {:?}", &regs[..1]));
        }
        return vec![];
    }
    // the non-system registers, in order
    let core: Vec<_> = regs.iter().filter(|x| x.2 < 0x8000).collect();
    if core.len() != lay.len() {
        return bad(format!("{} registers described, {} serialized", core.len(), lay.len()));
    }
    for ((x, l), (nm, id)) in core.iter().zip(&lay).zip(names) {
        st.note("described_registers_compared", 1);
        if x.0 != *nm || x.1 != l.size * 8 || x.2 != *id || l.id != *id {
            return bad(format!("register {:?} described, layout has {} number {} with {} bits", x, nm, id, l.size * 8));
        }
    }
    for x in &regs {
        let got = A::RegId::from_raw_id(x.2).and_then(|(_, s)| s).map(|s| s.get() * 8);
        st.note("described_registers_compared", 1);
        if d.has_ids && got != Some(x.1) {
            return bad(format!("register {:?} has {:?} bits in the register-number mapping", x, got));
        }
    }
    vec![]
}

// ---------------------------------------------------------------- ARM

fn arm_gen(r: &mut Rng) -> arm::reg::ArmCoreRegs {
    let mut x = arm::reg::ArmCoreRegs::default();
    for v in x.r.iter_mut() {
        *v = n(r) as u32;
    }
    x.sp = n(r) as u32;
    x.lr = n(r) as u32;
    x.pc = n(r) as u32;
    x.cpsr = n(r) as u32;
    x
}
fn arm_lay(x: &arm::reg::ArmCoreRegs) -> Vec<F> {
    let mut v = vec![];
    for i in 0..13 {
        v.push(f(i, format!("Gpr({})", i), &x.r[i].to_le_bytes()));
    }
    v.push(f(13, "Sp", &x.sp.to_le_bytes()));
    v.push(f(14, "Lr", &x.lr.to_le_bytes()));
    v.push(f(15, "Pc", &x.pc.to_le_bytes()));
    for i in 0..8 {
        v.push(un(16 + i, format!("Fpr({})", i), 12));
    }
    v.push(un(24, "Fps", 4));
    v.push(f(25, "Cpsr", &x.cpsr.to_le_bytes()));
    v
}

// ---------------------------------------------------------------- AArch64

fn a64_gen(r: &mut Rng) -> aarch64::reg::AArch64CoreRegs {
    let mut x = aarch64::reg::AArch64CoreRegs::default();
    for v in x.x.iter_mut() {
        *v = n(r) as u64;
    }
    for v in x.v.iter_mut() {
        *v = n(r);
    }
    x.sp = n(r) as u64;
    x.pc = n(r) as u64;
    x.cpsr = n(r) as u32;
    x.fpsr = n(r) as u32;
    x.fpcr = n(r) as u32;
    x
}
fn a64_lay(x: &aarch64::reg::AArch64CoreRegs) -> Vec<F> {
    let mut v = vec![];
    for i in 0..31 {
        v.push(f(i, format!("X({})", i), &x.x[i].to_le_bytes()));
    }
    v.push(f(31, "Sp", &x.sp.to_le_bytes()));
    v.push(f(32, "Pc", &x.pc.to_le_bytes()));
    v.push(f(33, "Pstate", &x.cpsr.to_le_bytes()));
    for i in 0..32 {
        v.push(f(34 + i, format!("V({})", i), &x.v[i].to_le_bytes()));
    }
    v.push(f(66, format!("System({})", 0b11_011_0100_0100_001), &x.fpsr.to_le_bytes()));
    v.push(f(67, format!("System({})", 0b11_011_0100_0100_000), &x.fpcr.to_le_bytes()));
    v
}
fn a64_extra(id: usize) -> Option<(String, usize)> {
    if (0x8000..=0xffff).contains(&id) {
        Some((format!("System({})", id), 8))
    } else {
        None
    }
}

// ---------------------------------------------------------------- MIPS

fn mips_gen<U: Uns>(r: &mut Rng) -> mips::reg::MipsCoreRegs<U> {
    let mut x = mips::reg::MipsCoreRegs::<U>::default();
    for v in x.r.iter_mut().chain(x.fpu.r.iter_mut()) {
        *v = U::of(n(r));
    }
    for v in [&mut x.lo, &mut x.hi, &mut x.pc, &mut x.cp0.status, &mut x.cp0.badvaddr, &mut x.cp0.cause, &mut x.fpu.fcsr, &mut x.fpu.fir] {
        *v = U::of(n(r));
    }
    x
}
fn mips_lay<U: Uns>(x: &mips::reg::MipsCoreRegs<U>) -> Vec<F> {
    let mut v = vec![];
    for i in 0..32 {
        v.push(f(i, format!("Gpr({})", i), &x.r[i].le()));
    }
    v.push(f(32, "Status", &x.cp0.status.le()));
    v.push(f(33, "Lo", &x.lo.le()));
    v.push(f(34, "Hi", &x.hi.le()));
    v.push(f(35, "Badvaddr", &x.cp0.badvaddr.le()));
    v.push(f(36, "Cause", &x.cp0.cause.le()));
    v.push(f(37, "Pc", &x.pc.le()));
    for i in 0..32 {
        v.push(f(38 + i, format!("Fpr({})", i), &x.fpu.r[i].le()));
    }
    v.push(f(70, "Fcsr", &x.fpu.fcsr.le()));
    v.push(f(71, "Fir", &x.fpu.fir.le()));
    v
}
fn mips_extra(w: usize, id: usize) -> Option<(String, usize)> {
    let n = ["Hi1", "Lo1", "Hi2", "Lo2", "Hi3", "Lo3", "Dspctl", "Restart"];
    if !(72..80).contains(&id) {
        return None;
    }
    Some((n[id - 72].into(), if id == 78 { 4 } else { w }))
}
fn dsp_gen<U: Uns>(r: &mut Rng) -> mips::reg::MipsCoreRegsWithDsp<U> {
    let mut x = mips::reg::MipsCoreRegsWithDsp::<U>::default();
    x.core = mips_gen(r);
    for v in [&mut x.dsp.hi1, &mut x.dsp.lo1, &mut x.dsp.hi2, &mut x.dsp.lo2, &mut x.dsp.hi3, &mut x.dsp.lo3, &mut x.dsp.restart] {
        *v = U::of(n(r));
    }
    x.dsp.dspctl = n(r) as u32;
    x
}
fn dsp_lay<U: Uns>(x: &mips::reg::MipsCoreRegsWithDsp<U>) -> Vec<F> {
    let mut v = mips_lay(&x.core);
    v.push(f(72, "Hi1", &x.dsp.hi1.le()));
    v.push(f(73, "Lo1", &x.dsp.lo1.le()));
    v.push(f(74, "Hi2", &x.dsp.hi2.le()));
    v.push(f(75, "Lo2", &x.dsp.lo2.le()));
    v.push(f(76, "Hi3", &x.dsp.hi3.le()));
    v.push(f(77, "Lo3", &x.dsp.lo3.le()));
    v.push(f(78, "Dspctl", &x.dsp.dspctl.to_le_bytes()));
    v.push(f(79, "Restart", &x.dsp.restart.le()));
    v
}

// ---------------------------------------------------------------- MSP430

fn msp_gen<U: Uns>(r: &mut Rng) -> msp430::reg::Msp430Regs<U> {
    let mut x = msp430::reg::Msp430Regs::<U>::default();
    for v in x.r.iter_mut() {
        *v = U::of(n(r));
    }
    for v in [&mut x.pc, &mut x.sp, &mut x.sr] {
        *v = U::of(n(r));
    }
    x
}
fn msp_lay<U: Uns>(x: &msp430::reg::Msp430Regs<U>) -> Vec<F> {
    let mut v = vec![f(0, "Pc", &x.pc.le()), f(1, "Sp", &x.sp.le()), f(2, "Sr", &x.sr.le()), un(3, "Cg", U::W)];
    for i in 0..12 {
        v.push(f(4 + i, format!("Gpr({})", i), &x.r[i].le()));
    }
    v
}

// ---------------------------------------------------------------- PowerPC

fn ppc_gen(r: &mut Rng) -> ppc::reg::PowerPcCommonRegs {
    let mut x = ppc::reg::PowerPcCommonRegs::default();
    for v in x.r.iter_mut() {
        *v = n(r) as u32;
    }
    for v in x.f.iter_mut() {
        *v = f64::from_bits(n(r) as u64);
    }
    for v in x.vr.iter_mut() {
        *v = n(r);
    }
    for v in [&mut x.pc, &mut x.msr, &mut x.cr, &mut x.lr, &mut x.ctr, &mut x.xer, &mut x.fpscr, &mut x.vscr, &mut x.vrsave] {
        *v = n(r) as u32;
    }
    x
}
fn ppc_lay(x: &ppc::reg::PowerPcCommonRegs) -> Vec<F> {
    let mut v = vec![];
    for i in 0..32 {
        v.push(f(i, format!("r{}", i), &x.r[i].to_be_bytes()));
    }
    for i in 0..32 {
        v.push(f(32 + i, format!("f{}", i), &x.f[i].to_bits().to_be_bytes()));
    }
    for (i, (nm, b)) in [("pc", x.pc), ("msr", x.msr), ("cr", x.cr), ("lr", x.lr), ("ctr", x.ctr), ("xer", x.xer), ("fpscr", x.fpscr)].iter().enumerate() {
        v.push(f(64 + i, *nm, &b.to_be_bytes()));
    }
    for i in 0..32 {
        v.push(f(71 + i, format!("vr{}", i), &x.vr[i].to_be_bytes()));
    }
    v.push(f(103, "vscr", &x.vscr.to_be_bytes()));
    v.push(f(104, "vrsave", &x.vrsave.to_be_bytes()));
    v
}

// ---------------------------------------------------------------- RISC-V

fn rv_gen<U: Uns>(r: &mut Rng) -> riscv::reg::RiscvCoreRegs<U> {
    let mut x = riscv::reg::RiscvCoreRegs::<U>::default();
    for v in x.x.iter_mut() {
        *v = U::of(n(r));
    }
    x.pc = U::of(n(r));
    x
}
fn rv_lay<U: Uns>(x: &riscv::reg::RiscvCoreRegs<U>) -> Vec<F> {
    let mut v = vec![];
    for i in 0..32 {
        v.push(f(i, format!("Gpr({})", i), &x.x[i].le()));
    }
    v.push(f(32, "Pc", &x.pc.le()));
    v
}
fn rv_extra(w: usize, id: usize) -> Option<(String, usize)> {
    match id {
        33..=64 => Some((format!("Fpr({})", id - 33), w)),
        65..=4160 => Some((format!("Csr({})", id - 65), w)),
        4161 => Some(("Priv".into(), 1)),
        _ => None,
    }
}

// ---------------------------------------------------------------- x86

fn seg_gen(r: &mut Rng) -> x86::reg::X86SegmentRegs {
    let mut s = x86::reg::X86SegmentRegs::default();
    for v in [&mut s.cs, &mut s.ss, &mut s.ds, &mut s.es, &mut s.fs, &mut s.gs] {
        *v = n(r) as u32;
    }
    s
}
fn fpu_gen(r: &mut Rng) -> x86::reg::X87FpuInternalRegs {
    let mut s = x86::reg::X87FpuInternalRegs::default();
    for v in [&mut s.fctrl, &mut s.fstat, &mut s.ftag, &mut s.fiseg, &mut s.fioff, &mut s.foseg, &mut s.fooff, &mut s.fop] {
        *v = n(r) as u32;
    }
    s
}
fn x86_common(v: &mut Vec<F>, id: usize, s: &x86::reg::X86SegmentRegs, st: &[[u8; 10]; 8], p: &x86::reg::X87FpuInternalRegs, xmm: &[u128], mxcsr: u32) {
    let mut id = id;
    let mut put = |v: &mut Vec<F>, nm: String, b: &[u8]| {
        v.push(f(id, nm, b));
        id += 1;
    };
    for (nm, x) in [("CS", s.cs), ("SS", s.ss), ("DS", s.ds), ("ES", s.es), ("FS", s.fs), ("GS", s.gs)] {
        put(v, format!("Segment({})", nm), &x.to_le_bytes());
    }
    for (i, x) in st.iter().enumerate() {
        put(v, format!("St({})", i), x);
    }
    for (nm, x) in
        [("Fctrl", p.fctrl), ("Fstat", p.fstat), ("Ftag", p.ftag), ("Fiseg", p.fiseg), ("Fioff", p.fioff), ("Foseg", p.foseg), ("Fooff", p.fooff), ("Fop", p.fop)]
    {
        put(v, format!("Fpu({})", nm), &x.to_le_bytes());
    }
    for (i, x) in xmm.iter().enumerate() {
        put(v, format!("Xmm({})", i), &x.to_le_bytes());
    }
    put(v, "Mxcsr".into(), &mxcsr.to_le_bytes());
}
fn x86_gen(r: &mut Rng) -> x86::reg::X86CoreRegs {
    let mut x = x86::reg::X86CoreRegs::default();
    for v in [&mut x.eax, &mut x.ecx, &mut x.edx, &mut x.ebx, &mut x.esp, &mut x.ebp, &mut x.esi, &mut x.edi, &mut x.eip, &mut x.eflags, &mut x.mxcsr] {
        *v = n(r) as u32;
    }
    for v in x.st.iter_mut() {
        v.copy_from_slice(&r.bytes(10));
    }
    for v in x.xmm.iter_mut() {
        *v = n(r);
    }
    x.segments = seg_gen(r);
    x.fpu = fpu_gen(r);
    x
}
fn x86_lay(x: &x86::reg::X86CoreRegs) -> Vec<F> {
    let mut v = vec![];
    for (i, (nm, b)) in [
        ("Eax", x.eax),
        ("Ecx", x.ecx),
        ("Edx", x.edx),
        ("Ebx", x.ebx),
        ("Esp", x.esp),
        ("Ebp", x.ebp),
        ("Esi", x.esi),
        ("Edi", x.edi),
        ("Eip", x.eip),
        ("Eflags", x.eflags),
    ]
    .iter()
    .enumerate()
    {
        v.push(f(i, *nm, &b.to_le_bytes()));
    }
    x86_common(&mut v, 10, &x.segments, &x.st, &x.fpu, &x.xmm, x.mxcsr);
    v
}
fn x64_gen(r: &mut Rng) -> x86::reg::X86_64CoreRegs {
    let mut x = x86::reg::X86_64CoreRegs::default();
    for v in x.regs.iter_mut() {
        *v = n(r) as u64;
    }
    x.rip = n(r) as u64;
    x.eflags = n(r) as u32;
    x.mxcsr = n(r) as u32;
    for v in x.st.iter_mut() {
        v.copy_from_slice(&r.bytes(10));
    }
    for v in x.xmm.iter_mut() {
        *v = n(r);
    }
    x.segments = seg_gen(r);
    x.fpu = fpu_gen(r);
    x
}
fn x64_lay(x: &x86::reg::X86_64CoreRegs) -> Vec<F> {
    let mut v = vec![];
    for i in 0..16 {
        v.push(f(i, format!("Gpr({})", i), &x.regs[i].to_le_bytes()));
    }
    v.push(f(16, "Rip", &x.rip.to_le_bytes()));
    v.push(f(17, "Eflags", &x.eflags.to_le_bytes()));
    x86_common(&mut v, 18, &x.segments, &x.st, &x.fpu, &x.xmm, x.mxcsr);
    v
}

fn none(_: usize) -> Option<(String, usize)> {
    None
}

fn names(v: &[(&str, usize)]) -> Vec<(String, usize)> {
    v.iter().map(|(a, b)| (a.to_string(), *b)).collect()
}

const RV: [&str; 33] = [
    "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "fp", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8",
    "s9", "s10", "s11", "t3", "t4", "t5", "t6", "pc",
];

enum What {
    Regs,
    Ids,
    Xml,
}

fn each(w: What, r: &mut Rng, st: &mut Stats) -> Vec<Fail> {
    let mut out = vec![];
    macro_rules! arch {
        ($t:ty, $name:literal, $gen:expr, $lay:expr, $pc:expr, $extra:expr, ids $ids:literal, zero $z:literal, $arch:expr, $feat:expr, $xml:expr) => {
            // interpreted, one architecture is enough for a case
            let skip = cfg!(miri) && matches!(w, What::Regs) && r.below(13) != 0;
            if !skip {
            let d = ArchDef::<$t> { name: $name, gen: $gen, layout: $lay, pc: $pc, zero_unavail: $z, extra_ids: $extra, has_ids: $ids };
            out.extend(match w {
                What::Regs => run_arch(&d, r, st),
                What::Ids => run_ids(&d, r, st),
                What::Xml => {
                    let nm: Vec<(String, usize)> = $xml;
                    run_xml(&d, &nm, $arch, $feat, r, st)
                }
            });
            }
        };
    }
    let rvn: Vec<(String, usize)> = RV.iter().enumerate().map(|(i, s)| (s.to_string(), i)).collect();
    let mut a64n: Vec<(String, usize)> = (0..31).map(|i| (format!("x{}", i), i)).collect();
    a64n.extend(names(&[("sp", 31), ("pc", 32), ("cpsr", 33)]));
    a64n.extend((0..32).map(|i| (format!("v{}", i), 34 + i)));
    a64n.extend(names(&[("fpsr", 66), ("fpcr", 67)]));
    arch!(arm::Armv4t, "armv4t", arm_gen, arm_lay, |x| x.pc, none, ids true, zero false, Some("armv4t"), &[], vec![]);
    arch!(aarch64::AArch64, "aarch64", a64_gen, a64_lay, |x| x.pc, a64_extra, ids true, zero false, Some("aarch64"), &["org.gnu.gdb.aarch64.core", "org.gnu.gdb.aarch64.fpu"], a64n);
    arch!(mips::Mips, "mips", mips_gen::<u32>, mips_lay::<u32>, |x| x.pc, |i| mips_extra(4, i), ids true, zero false, Some("mips"), &[], vec![]);
    arch!(mips::Mips64, "mips64", mips_gen::<u64>, mips_lay::<u64>, |x| x.pc, |i| mips_extra(8, i), ids true, zero false, None, &[], vec![]);
    arch!(mips::MipsWithDsp, "mips+dsp", dsp_gen::<u32>, dsp_lay::<u32>, |x| x.core.pc, |i| mips_extra(4, i), ids true, zero false, Some("mips"), &["org.gnu.gdb.mips.dsp"], vec![]);
    arch!(mips::Mips64WithDsp, "mips64+dsp", dsp_gen::<u64>, dsp_lay::<u64>, |x| x.core.pc, |i| mips_extra(8, i), ids true, zero false, None, &[], vec![]);
    arch!(msp430::Msp430, "msp430", msp_gen::<u16>, msp_lay::<u16>, |x| x.pc, none, ids true, zero true, Some("msp430"), &[], vec![]);
    arch!(msp430::Msp430X, "msp430x", msp_gen::<u32>, msp_lay::<u32>, |x| x.pc, none, ids true, zero true, Some("msp430x"), &[], vec![]);
    arch!(ppc::PowerPcAltivec32<()>, "powerpc", ppc_gen, ppc_lay, |x| x.pc, none, ids false, zero false, Some("powerpc:common"), &["org.gnu.gdb.power.core", "org.gnu.gdb.power.fpu", "org.gnu.gdb.power.altivec"], vec![]);
    arch!(riscv::Riscv32, "riscv32", rv_gen::<u32>, rv_lay::<u32>, |x| x.pc, |i| rv_extra(4, i), ids true, zero false, None, &["org.gnu.gdb.riscv.cpu"], rvn.clone());
    arch!(riscv::Riscv64, "riscv64", rv_gen::<u64>, rv_lay::<u64>, |x| x.pc, |i| rv_extra(8, i), ids true, zero false, None, &["org.gnu.gdb.riscv.cpu"], rvn);
    arch!(x86::X86_SSE, "x86", x86_gen, x86_lay, |x| x.eip, none, ids true, zero false, Some("i386:intel"), &["org.gnu.gdb.i386.sse"], vec![]);
    arch!(x86::X86_64_SSE, "x86_64", x64_gen, x64_lay, |x| x.rip, none, ids true, zero false, Some("i386:x86-64"), &["org.gnu.gdb.i386.sse"], vec![]);
    out
}

pub fn regs(_: &'static str, seed: u64, _: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let mut st = Stats::default();
    let mut r = Rng::new(seed);
    let v = each(What::Regs, &mut r, &mut st);
    st.distinct.insert(seed);
    (v, st)
}

pub fn ids(_: &'static str, seed: u64, _: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let mut st = Stats::default();
    let mut r = Rng::new(seed);
    let mut v = each(What::Ids, &mut r, &mut st);
    v.extend(each(What::Xml, &mut r, &mut st));
    v.extend(sys(&mut st));
    v.extend(kinds(&mut r, &mut st));
    st.distinct.insert(seed);
    (v, st)
}

/// AArch64 system registers: description, mapping and constants agree with the
/// architectural encodings
fn sys(st: &mut Stats) -> Vec<Fail> {
    use gdbstub_arch::aarch64::{reg::id::AArch64RegId, AArch64};
    let xml = xml_regs(AArch64::target_description_xml().unwrap_or(""));
    let mut seen = std::collections::HashMap::new();
    for x in &xml {
        seen.insert(x.0.clone(), (x.1, x.2));
    }
    for (nm, c, enc) in SYS {
        st.note("system_registers_checked", 1);
        if *c != AArch64RegId::System(*enc) {
            return vec![fail("sysreg", format!("constant for {} is {:?}, encoding is {}", nm, c, enc))];
        }
        if seen.get(*nm) != Some(&(64, *enc as usize)) {
            return vec![fail("sysreg", format!("{} described as {:?}, encoding is {}", nm, seen.get(*nm), enc))];
        }
        let got = AArch64RegId::from_raw_id(*enc as usize);
        if got.map(|(i, s)| (i, s.map(|s| s.get()))) != Some((*c, Some(8))) {
            return vec![fail("sysreg", format!("{} ({}) maps to {:?}", nm, enc, got))];
        }
        if c.len() != Some(8) {
            return vec![fail("sysreg", format!("{} has length {:?}", nm, c.len()))];
        }
    }
    if xml.iter().filter(|x| x.2 >= 0x8000).any(|x| !SYS.iter().any(|s| s.0 == x.0)) {
        return vec![fail("sysreg", "the description lists a system register that does not exist".into())];
    }
    for (id, l) in [(AArch64RegId::X(31), None), (AArch64RegId::V(32), None), (AArch64RegId::X(30), Some(8)), (AArch64RegId::V(31), Some(16)), (AArch64RegId::Pstate, Some(4))] {
        if id.len() != l {
            return vec![fail("sysreg", format!("length of {:?} is {:?}", id, id.len()))];
        }
    }
    vec![]
}

fn kinds(r: &mut Rng, st: &mut Stats) -> Vec<Fail> {
    use gdbstub_arch::{arm::ArmBreakpointKind as A, mips::MipsBreakpointKind as M};
    let mut v: Vec<usize> = (0..70_000).collect();
    v.extend((0..500).map(|_| r.num(64) as usize));
    for k in v {
        st.note("breakpoint_kinds_checked", 1);
        let arm = match k {
            2 => matches!(A::from_usize(k), Some(A::Thumb16)),
            3 => matches!(A::from_usize(k), Some(A::Thumb32)),
            4 => matches!(A::from_usize(k), Some(A::Arm32)),
            _ => A::from_usize(k).is_none(),
        };
        let mips = match k {
            2 => matches!(M::from_usize(k), Some(M::Mips16)),
            3 => matches!(M::from_usize(k), Some(M::MicroMips16)),
            4 => matches!(M::from_usize(k), Some(M::Mips32)),
            5 => matches!(M::from_usize(k), Some(M::MicroMips32)),
            _ => M::from_usize(k).is_none(),
        };
        let plain = <usize as BreakpointKind>::from_usize(k) == Some(k) && <() as BreakpointKind>::from_usize(k).is_some() == (k == 0);
        if !arm || !mips || !plain {
            return vec![fail("bp-kind", format!("breakpoint kind {}: ARM {:?}, MIPS {:?}", k, A::from_usize(k), M::from_usize(k)))];
        }
    }
    vec![]
}
