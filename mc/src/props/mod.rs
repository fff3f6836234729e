use crate::engine::{bad, Ctx, Fail, Scenario, Tier, Verdict};
use crate::guard;
use crate::model::Ev;
use std::fmt::Debug;

pub mod calls;
pub mod effort;
pub mod faults;
pub mod history;
pub mod observe;
pub mod roster;
pub mod texts;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"];

pub struct Prop {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub workers: Option<usize>,
    pub scenarios: Vec<Scenario>,
}

pub fn prop(scenarios: Vec<Scenario>) -> Prop {
    Prop { level: "model_checking", rule: "", assumptions: vec![], workers: None, scenarios }
}

impl Prop {
    pub fn assume(mut self, a: &[&'static str]) -> Prop {
        self.assumptions.extend_from_slice(a);
        self
    }
    pub fn faults(mut self, rule: &'static str) -> Prop {
        self.level = "fault_enumeration";
        self.rule = rule;
        self
    }
}

pub fn get(id: &str, tier: Tier) -> Prop {
    match id {
        "C01" => faults::c01(tier),
        "C02" => faults::c02(tier),
        "C20" => calls::c20(tier),
        "C21" => calls::c21(tier),
        "C22" => calls::c22(tier),
        "C23" => faults::c23(tier),
        "C24" => faults::c24(tier),
        "C25" => effort::c25(tier),
        "C03" => history::c03(tier),
        "C04" => history::c04(tier),
        "C05" => history::c05(tier),
        "C06" => history::c06(tier),
        "C07" => history::c07(tier),
        "C08" => history::c08(tier),
        "C09" => history::c09(tier),
        "C10" => history::c10(tier),
        "C11" => roster::c11(tier),
        "C12" => roster::c12(tier),
        "C13" => roster::c13(tier),
        "C14" => roster::c14(tier),
        "C15" => roster::c15(tier),
        "C16" => texts::c16(tier),
        "C17" => texts::c17(tier),
        "C18" => texts::c18(tier),
        "C19" => texts::c19(tier),
        _ => unreachable!(),
    }
}

/// Calls the library; a panic is a violation of whatever property is being checked.
pub fn api<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guard::call(f).map_err(|p| Fail::Violation(format!("{what} panicked: {p}")))
}

pub fn clip(s: String) -> String {
    if s.len() > 600 {
        let mut i = 600;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}… ({} bytes)", &s[..i], s.len())
    } else {
        s
    }
}

pub fn same<T: PartialEq + Debug>(what: &str, got: &T, want: &T) -> Verdict {
    if got == want {
        Ok(())
    } else {
        bad(format!("{what}: got {}, expected {}", clip(format!("{got:?}")), clip(format!("{want:?}"))))
    }
}

pub fn show(cx: &mut Ctx, evs: &[Ev]) {
    if cx.record {
        for e in evs {
            let s = e.show();
            cx.notes.push(clip(s));
        }
    }
}

pub fn probe(_a: &[String]) {}

/// Names (or teams) that are different but close: in case, colour, blanks, spelling, length.
pub const SIBLINGS: [(&str, &str); 22] = [
    ("Bob", "bob"), ("bob", "b\u{ef}b"), ("bob", "\u{e2}\u{ef}\u{e2}"), ("bob", " bob"), ("bob", "bobb"), ("bob", "bbob"),
    ("bob", "bob\u{a0}"), ("bob", "bob\u{85}"), ("b\u{e9}", "b\u{c9}"), ("1", "\u{13}"), ("[x]", "\u{10}x\u{11}"), ("bob", "b ob"),
    ("b b", "b  b"), ("x\u{df}", "xss"), ("bob", "b0b"), ("bob.", "bob"), ("b_b", "b-b"), ("a", "b"),
    ("abcdefghijklmnopqrstuvwxyz01234", "abcdefghijklmnopqrstuvwxyz0123"), ("abcdefghijklmnopqrstuvwxyz01234", "abcdefghijklmnopqrstuvwxyz01235"),
    ("bob", "bob\u{1}"), ("(1)bob", "bob"),
];

/// both orders of every pair
pub fn siblings(cx: &mut Ctx) -> (&'static str, &'static str) {
    let (a, b) = *cx.pick(&SIBLINGS);
    if cx.flag() { (a, b) } else { (b, a) }
}

/// how far apart (in bytes, about) things may be in a recording
pub fn far(cx: &mut Ctx) -> usize {
    let all = [0usize, 0x200, 0x400, 0x1000, 0x4000, 0x8000, 0x10000, 0x20000, 0x40000, 0x80000, 0x100000, 0x200000, 0x800000, 0x1800000];
    let n = if cx.quick() { 12 } else { all.len() };
    *cx.pick(&all[..n])
}

/// Frames without anything of interest, of at least `size` bytes altogether, and their total time.
pub fn filler(size: usize) -> (Vec<u8>, u64) {
    let mut v = Vec::with_capacity(size + 1100);
    let mut ms = 0;
    if size == 0 {
        return (v, 0);
    }
    // one frame of half the size, if that is much
    let big = vec![1; if size >= 0x200000 { size / 2 + 0x1000 } else { 0 }];
    while v.len() < size {
        let body: &[u8] = if ms == 14 && !big.is_empty() { &big } else if (ms / 7) % 2 == 0 { &[3, 1, 2] } else { &[1; 1000] };
        v.push(7);
        v.push(6);
        v.extend_from_slice(&(body.len() as u32).to_le_bytes());
        v.extend_from_slice(body);
        ms += 7;
    }
    (v, ms)
}
