//! Small utilities: PRNG, hex, JSON output.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// "interesting" u64 limited to `bits`
    pub fn num(&mut self, bits: u32) -> u64 {
        let mask = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.below(8) {
            0 => self.below(4) as u64,
            1 => mask - self.below(4) as u64,
            2 => (1u64 << self.below(bits.min(64) as usize)).wrapping_sub(self.below(2) as u64),
            3 => self.below(256) as u64,
            4 => (self.next() & 0xff) << (8 * self.below((bits as usize / 8).max(1))),
            5 => self.next() >> self.below(64),
            _ => self.next(),
        };
        v & mask
    }
    /// Payload bytes in one of several styles: protocol-special bytes, long
    /// runs, random.
    pub fn payload(&mut self, n: usize) -> Vec<u8> {
        let style = self.below(5);
        let mut out = Vec::with_capacity(n);
        match style {
            0 => {
                while out.len() < n {
                    out.push(*self.pick(b"#$}*+-\x03\x00\x04\x5d\x0a ~\xff\x7e"));
                }
            }
            1 => {
                while out.len() < n {
                    let b = *self.pick(&[0u8, 0x11, 0x22, 0xaa, 0xff, b'*', b'#', b'}', b'0', 0x1f, 0xf1]);
                    let run = 1 + self.below(220);
                    for _ in 0..run {
                        if out.len() < n {
                            out.push(b)
                        }
                    }
                }
            }
            2 => {
                while out.len() < n {
                    let b = self.next() as u8;
                    let run = 1 + self.below(12);
                    for _ in 0..run {
                        if out.len() < n {
                            out.push(b)
                        }
                    }
                }
            }
            _ => {
                while out.len() < n {
                    out.push(self.next() as u8)
                }
            }
        }
        out
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_add(0xD1B5_4A32_D192_ED03);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// hex digits of a value as the protocol writes numbers, used to *compare*
/// semantically
pub fn parse_hex_u128(s: &[u8]) -> Option<u128> {
    if s.is_empty() || s.len() > 32 {
        return None;
    }
    let mut v = 0u128;
    for c in s {
        v = (v << 4) | (*c as char).to_digit(16)? as u128;
    }
    Some(v)
}

pub fn unhex(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    s.chunks(2)
        .map(|c| {
            let h = (c[0] as char).to_digit(16)?;
            let l = (c[1] as char).to_digit(16)?;
            Some((h * 16 + l) as u8)
        })
        .collect()
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    let lim = 1200;
    for x in b.iter().take(lim) {
        match x {
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(*x as char),
            _ => s.push_str(&format!("\\x{:02x}", x)),
        }
    }
    if b.len() > lim {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

thread_local! {
    static LEVEL: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
/// Restrict generated sessions to what several builds of the library have in
/// common: 0 nothing in particular, 1 every build, 2 builds with alloc.
pub fn set_level(v: u8) {
    LEVEL.with(|l| l.set(v))
}
pub fn no_alloc() -> bool {
    cfg!(not(feature = "alloc")) || LEVEL.with(|l| l.get()) == 1
}
pub fn no_std_errors() -> bool {
    cfg!(not(feature = "std")) || LEVEL.with(|l| l.get()) > 0
}
