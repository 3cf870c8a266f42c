//! Signal numbers and names against GDB's table.
use crate::engine::{Fail, Stats};
use crate::signals::*;
use gdbstub::common::Signal;

pub fn case(_: &'static str, seed: u64, _: &dyn Fn()) -> (Vec<Fail>, Stats) {
    let mut st = Stats::default();
    let mut f = vec![];
    let v = crate::util::Rng::new(seed).next() as u8;
    let s = named(v);
    let text = format!("{}", Signal(v));
    st.note("signals", 1);
    st.steps = 1;
    st.distinct.insert(v as u64);
    if s.0 != v {
        f.push(Fail { tags: vec!["P14"], label: "signal", msg: format!("{} has number {}, GDB's number is {}", TABLE[v as usize].0, s.0, v) });
    }
    let ok = match TABLE.get(v as usize) {
        Some((n, _)) => text.split(' ').next() == Some(n),
        None => !TABLE.iter().any(|(n, _)| text.split(' ').next() == Some(n)),
    };
    if !ok {
        f.push(Fail { tags: vec!["P14"], label: "signal", msg: format!("signal {} is called [{}]", v, text) });
    }
    (f, st)
}
