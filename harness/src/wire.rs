//! Client side of the wire: encoding requests and strictly parsing replies.

/// `$body#xx`
pub fn frame(body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(body.len() + 4);
    v.push(b'$');
    v.extend_from_slice(body);
    let sum = body.iter().fold(0u8, |a, b| a.wrapping_add(*b));
    v.push(b'#');
    v.extend_from_slice(format!("{:02x}", sum).as_bytes());
    v
}

/// client-side binary escaping
pub fn escape(data: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    for b in data {
        match b {
            b'#' | b'$' | b'}' | b'*' => {
                v.push(b'}');
                v.push(b ^ 0x20);
            }
            b => v.push(*b),
        }
    }
    v
}

pub fn unescape(data: &[u8]) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < data.len() {
        if data[i] == b'}' {
            i += 1;
            v.push(*data.get(i)? ^ 0x20);
        } else {
            v.push(data[i]);
        }
        i += 1;
    }
    Some(v)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Ack,
    /// `raw`: bytes between `$` and `#`; `dec`: after run-length expansion
    Pkt { raw: Vec<u8>, dec: Vec<u8> },
}

#[derive(Debug)]
pub struct Parsed {
    pub items: Vec<Item>,
    /// (property tags, message)
    pub errs: Vec<(&'static [&'static str], String)>,
    /// bytes of an incomplete trailing packet
    pub partial: Vec<u8>,
    pub rle_runs: usize,
}

pub fn rle_expand(raw: &[u8], rle_on: bool) -> (Vec<u8>, Vec<String>, usize) {
    let mut out: Vec<u8> = Vec::with_capacity(raw.len());
    let mut errs = vec![];
    let mut runs = 0;
    let mut i = 0;
    while i < raw.len() {
        let b = raw[i];
        if b == b'*' {
            runs += 1;
            if !rle_on {
                errs.push("run-length encoding used although it was disabled".into());
            }
            match (out.last().copied(), raw.get(i + 1).copied()) {
                (Some(c), Some(n)) => {
                    if !(b' '..=b'~').contains(&n) || n == b'#' || n == b'$' {
                        errs.push(format!("illegal run-length count byte {:#04x}", n));
                    }
                    let n = (n as usize).wrapping_sub(29);
                    if n < 3 || n > 97 {
                        errs.push(format!("run-length count denotes {} repeats", n as i64));
                    }
                    if n <= 226 {
                        for _ in 0..n {
                            out.push(c);
                        }
                    }
                    i += 2;
                    continue;
                }
                (None, _) => {
                    errs.push("run-length marker without a preceding character".into());
                    i += 1;
                }
                (_, None) => {
                    errs.push("run-length marker without a count".into());
                    i += 1;
                }
            }
        } else {
            out.push(b);
            i += 1;
        }
    }
    (out, errs, runs)
}

pub fn parse_tx(bytes: &[u8], rle_on: bool) -> Parsed {
    let mut p = Parsed { items: vec![], errs: vec![], partial: vec![], rle_runs: 0 };
    let mut i = 0;
    while i < bytes.len() {
        match bytes[i] {
            b'+' => {
                p.items.push(Item::Ack);
                i += 1;
            }
            b'$' => {
                let body_start = i + 1;
                let end = match bytes[body_start..].iter().position(|b| *b == b'#') {
                    Some(e) => body_start + e,
                    None => {
                        p.partial = bytes[i..].to_vec();
                        return p;
                    }
                };
                if end + 2 >= bytes.len() {
                    p.partial = bytes[i..].to_vec();
                    return p;
                }
                let raw = bytes[body_start..end].to_vec();
                if raw.contains(&b'$') {
                    p.errs.push((&["P01", "P02"], "unescaped '$' inside a packet".into()));
                }
                let ck = &bytes[end + 1..end + 3];
                let sum = raw.iter().fold(0u8, |a, b| a.wrapping_add(*b));
                if !ck.iter().all(|c| c.is_ascii_hexdigit()) {
                    p.errs.push((&["P01"], format!("checksum is not two hex digits: {:?}", ck)));
                } else {
                    let v = u8::from_str_radix(std::str::from_utf8(ck).unwrap(), 16).unwrap();
                    if v != sum {
                        p.errs.push((
                            &["P01", "P02"],
                            format!("checksum {:02x} does not match body sum {:02x}", v, sum),
                        ));
                    }
                }
                let (dec, errs, runs) = rle_expand(&raw, rle_on);
                p.rle_runs += runs;
                for e in errs {
                    p.errs.push((&["P02", "P01"], e));
                }
                p.items.push(Item::Pkt { raw, dec });
                i = end + 3;
            }
            b => {
                p.errs.push((&["P01"], format!("stray byte {:#04x} between packets", b)));
                i += 1;
            }
        }
    }
    p
}
