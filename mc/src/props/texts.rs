//! C16 to C19: stats report text, server settings, timestamps, verdicts.
use super::history::demo_choice;
use super::*;
use crate::engine::scenario;
use crate::text;
use crate::wire::{self, msg, Body, Client, Frame, Opening};
use std::collections::BTreeMap;

fn find(d: &[u8], n: &[u8]) -> bool {
    d.windows(n.len()).any(|w| w == n)
}

// --- C16 -------------------------------------------------------------------------------------

/// blocks of a document; both numberings in use end with 0
fn blocks(doc: &[u8], cuts: &[usize], ascending: bool, ms: u8) -> Vec<Frame> {
    let mut ends: Vec<usize> = cuts.to_vec();
    ends.push(doc.len());
    let n = ends.len();
    let mut v = vec![];
    let mut from = 0;
    for (i, to) in ends.into_iter().enumerate() {
        let num = if i + 1 == n { 0 } else if ascending { i + 1 } else { n - 1 - i };
        v.push(Frame::hidden(ms, 3, num as u16, &doc[from..to]));
        from = to;
    }
    v
}

fn document(len: usize, tag: &str) -> Vec<u8> {
    let mut d = format!("{{\"version\": 3,\n \"hostname\": \"{tag}").into_bytes();
    let mut i = 0usize;
    while d.len() + 4 < len {
        d.push(b'a' + (i * 7 + i / 26) as u8 % 26);
        i += 1;
    }
    d.extend_from_slice(b"\"\n}\n");
    d
}

/// The report as the history of blocks has it.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Doc {
    text: Option<Vec<u8>>,
    open: Option<Vec<u8>>,
}
impl Doc {
    fn step(&mut self, f: &Frame) {
        let block = match &f.body {
            Body::Multi { mask: 0, data } if data.len() >= 8 && data[4..6] == [3, 0] => Some(data),
            _ => None,
        };
        let Some(b) = block else {
            if self.open.take().is_some() {
                self.text = None; // it broke off
            }
            return;
        };
        let mut t = if b[8..].starts_with(b"{\"version\": ") { vec![] } else { self.open.take().unwrap_or_default() };
        t.extend_from_slice(&b[8..]);
        if b[6..8] == [0, 0] {
            self.text = Some(t);
            self.open = None;
        } else {
            self.text = None;
            self.open = Some(t);
        }
    }
    fn end(&self) -> Option<Vec<u8>> {
        if self.open.is_some() { None } else { self.text.clone() }
    }
}

fn real_text(data: &[u8]) -> Result<Option<Vec<u8>>, Fail> {
    api("ktxstats_string", || mvdparser::ktxstats_string(data).ok().map(|s| s.into_bytes()))
}

fn check_report(cx: &mut Ctx, frames: &[Frame]) -> Verdict {
    let mut m = Doc::default();
    for f in frames {
        m.step(f);
        cx.step(f, &m);
        cx.note(|| clip(format!("{f:?}")));
    }
    let data = wire::encode(frames);
    cx.input(&data);
    let got = real_text(&data)?;
    cx.compared();
    cx.outcome(&got);
    same_text(&got, &m.end())
}

fn same_text(got: &Option<Vec<u8>>, want: &Option<Vec<u8>>) -> Verdict {
    if got == want {
        return Ok(());
    }
    let s = |t: &Option<Vec<u8>>| t.as_ref().map(|t| clip(String::from_utf8_lossy(t).to_string()));
    bad(format!("report text: got {:?}, expected {:?}", s(got), s(want)))
}

fn tail(which: usize) -> Vec<Frame> {
    match which {
        0 => vec![],
        1 => vec![wire::end_of_demo()],
        2 => vec![Frame::hidden(3, 7, 0, &[1, 2, 3, 4]), Frame::all(2, msg::print(2, b"bye\n")), wire::end_of_demo()],
        3 => vec![Frame::to(1, 2, 0, vec![]), Frame::all(0, vec![])],
        _ => vec![Frame::hidden(1, 2, 0, b"{\"x\": 1}"), Frame::all(0, msg::print(3, b"\"version\": 3 {}\n"))],
    }
}

fn head(which: usize) -> Vec<Frame> {
    match which {
        0 => vec![],
        1 => vec![Frame::all(7, msg::print(2, b"hello\n")), Frame::hidden(1, 7, 0, &[5; 9])],
        _ => {
            let (mut f, evs) = super::history::base_history(0);
            f.extend(evs.iter().map(|e| e.0.frame()));
            f
        }
    }
}

pub fn c16(_t: Tier) -> Prop {
    let splits = scenario("every split of a short report", (0, 0), |cx| {
        let doc = document(cx.by(64, 84), "h");
        let n = cx.choose(cx.by(3, 4));
        let ascending = n > 1 && cx.flag();
        let mut cuts: Vec<usize> = vec![];
        let mut from = 12; // the first block holds the opening key
        for _ in 0..n {
            let c = from + cx.choose(doc.len() - from + 1);
            cuts.push(c);
            from = c;
        }
        let mut f = blocks(&doc, &cuts, ascending, 0);
        f.push(wire::end_of_demo());
        check_report(cx, &f)
    });
    let places = scenario("surroundings, frame times and sizes", (0, 0), |cx| {
        let len = *cx.pick(&[60usize, 255, 256, 257, 8084, 8086, 65535, 65536, 65537, 70001]);
        let doc = document(len, "host");
        let cut = match cx.choose(5) {
            0 => vec![],
            1 => vec![len / 2],
            2 => vec![len / 3, len - 1],
            3 => vec![12, 20, len - 7],
            _ => (1..=len / 40).map(|i| i * 40).filter(|c| *c < len).take(300).collect(),
        };
        let ascending = cx.flag();
        let ms = *cx.pick(&[0u8, 1, 255]);
        let mut f = head(cx.choose(3));
        f.extend(blocks(&doc, &cut, ascending, ms));
        f.extend(tail(cx.choose(5)));
        check_report(cx, &f)
    });
    let several = scenario("several reports", (0, 0), |cx| {
        let n = 1 + cx.choose(3);
        let mut f = head(cx.choose(2));
        for i in 0..n {
            let doc = document(60 + 40 * cx.choose(3), ["one", "two", "three"][i]);
            let cuts: &[usize] = *cx.pick(&[&[][..], &[30][..], &[20, 40][..]]);
            let mut b = blocks(&doc, cuts, false, 0);
            if cuts.len() > 0 && cx.flag() {
                b.pop(); // broke off
            }
            f.extend(b);
            f.extend(tail(*cx.pick(&[0usize, 3, 2])));
        }
        check_report(cx, &f)
    });
    let chars = scenario("characters of the text", (0, 0), |cx| {
        let c = match cx.choose(4) {
            0 => char::from_u32(1 + cx.choose(0xff) as u32),
            1 => char::from_u32(0x2022),
            2 => char::from_u32(0x1F600),
            _ => char::from_u32(0xD7FF),
        };
        let Some(c) = c else { return Ok(()) };
        let doc = format!("{{\"version\": 3, \"hostname\": \"ab{c}cd\"}}");
        let at = 29 + cx.choose(8); // also inside a multi-byte character
        let f = blocks(doc.as_bytes(), &[at.min(doc.len())], false, 0);
        check_report(cx, &f)
    });
    let cuts = scenario("every cut of a recording with a report", (0, 0), |cx| {
        let mut f = head(1);
        let two = cx.flag();
        let first = document(90, "first");
        if two {
            f.extend(blocks(&first, &[50], false, 0));
        }
        let start = wire::encode(&f).len();
        let doc = document(cx.by(100, 200), "second");
        f.extend(blocks(&doc, &[30, 60], cx.flag(), 0));
        let end = wire::encode(&f).len();
        f.extend(tail(2));
        let full = wire::encode(&f);
        let cut = cx.choose(full.len() + 1);
        let data = &full[..cut];
        cx.step(&(cut, two), &(cut >= end, cut));
        cx.note(|| format!("{} bytes, report in {start}..{end}, cut at {cut}, earlier report: {two}", full.len()));
        cx.input(data);
        let got = real_text(data)?;
        cx.compared();
        cx.outcome(&got);
        if cut >= end {
            return same_text(&got, &Some(doc));
        }
        // not complete: an error, or the earlier complete report as long as this one has not begun
        if got.is_none() || (two && cut >= start && cut < start + 30 && got.as_ref() == Some(&first)) {
            return Ok(());
        }
        same_text(&got, &None)
    });
    let short = scenario("blocks cut short inside the recording", (0, 0), |cx| {
        // a block states more than the rest of the recording holds, or is followed by something else
        let doc = document(120, "h");
        let mut f = blocks(&doc, &[40, 80], false, 0);
        let k = cx.choose(3);
        match cx.choose(2) {
            0 => {
                // the stated length of block k grows past the end
                if let Body::Multi { data, .. } = &mut f[k].body {
                    let n = 2 + *cx.pick(&[1000u32, 65536, 1 << 20, u32::MAX - 2]);
                    data[..4].copy_from_slice(&n.to_le_bytes());
                }
            }
            _ => {
                f.truncate(k);
            }
        }
        f.extend(tail(1 + cx.choose(4)));
        let data = wire::encode(&f);
        cx.step(&data, &k);
        cx.note(|| clip(format!("{f:?}")));
        cx.input(&data);
        let got = real_text(&data)?;
        cx.compared();
        same_text(&got, &None)
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, _)) = demo_choice(cx) else { return Ok(()) };
        let mut m = Doc::default();
        for f in wire::decode(d) {
            m.step(&f);
        }
        cx.step(&d.len(), &m);
        let got = real_text(d)?;
        cx.compared();
        cx.outcome(&got);
        same_text(&got, &m.end())
    });
    let whole = scenario("reports that look whole where they break off", (0, 0), |cx| {
        // every block end, the rest of the blocks missing
        const DOCS: [&str; 5] = [
            "{\"version\": 3, \"a\": {\n}\n, \"duration\": 5, \"b\": [1, 2]\n}\n",
            "{\"version\": 3, \"players\": [{\"a\": {}}, {\"b\": []}]}\n\n",
            "{\"version\": 3}\n{\"x\": {}}\r\n}",
            "{\"version\": 3, \"hostname\": \"}\", \"map\": \"]}\n\"}\0",
            "{\"version\": 3, \"t\": [\n\t{\n\t}\n]\n}\n\n\n\n",
        ];
        let doc = cx.pick(&DOCS).as_bytes();
        let a = 12 + cx.choose(doc.len() - 12);
        let mut cuts = vec![a];
        let more = cx.flag();
        if more {
            cuts.push(a + 1 + cx.choose(doc.len() - a));
        }
        let kept = 1 + cx.choose(cuts.len() + 1);
        let h = if more { 0 } else { cx.choose(3) };
        let t = if more { *cx.pick(&[0usize, 1, 3]) } else { cx.choose(5) };
        let mut f = head(h);
        let mut b = blocks(doc, &cuts, cx.flag(), 0);
        b.truncate(kept);
        f.extend(b);
        f.extend(tail(t));
        check_report(cx, &f)
    });
    let far_off = scenario("far into the recording, and large", (0, 0), |cx| {
        let between = far(cx);
        let (fill, _) = filler(between);
        let len = *cx.pick(&[60usize, 5000, 300_000, 3_000_000]);
        let first = document(77, "first");
        let doc = document(len, "host");
        let shape = cx.choose(4);
        let mut data = wire::encode(&head(1));
        let mut want = None;
        if shape & 1 == 1 {
            data.extend(wire::encode(&blocks(&first, &[40], false, 0)));
            want = Some(first);
        }
        data.extend_from_slice(&fill);
        if shape & 2 == 2 {
            let size = *cx.pick(&[1000usize, 8000, 200_000]);
            let cuts: Vec<usize> = (1..).map(|i| i * size).take_while(|c| *c < len).collect();
            data.extend(wire::encode(&blocks(&doc, &cuts, cx.flag(), 1)));
            want = Some(doc);
            data.extend_from_slice(&fill);
        }
        data.extend(wire::encode(&tail(cx.choose(3))));
        cx.step(&(between, len, shape), &want.as_ref().map(|w| w.len()));
        cx.note(|| format!("{between} bytes between, report of {len} bytes, reports present {shape:02b}, {} bytes", data.len()));
        cx.input(&data);
        let got = real_text(&data)?;
        cx.compared();
        cx.outcome(&got);
        same_text(&got, &want)
    });
    let many = scenario("many blocks", (0, 0), |cx| {
        // every number of blocks, and every block size
        let (n, size) = if cx.flag() { (1 + cx.choose(cx.by(700, 3000)), 13 + cx.choose(2)) } else { (3, 13 + cx.choose(cx.by(1200, 9000))) };
        let n = if n == 700 && size == 14 { 65536 } else { n };
        let doc = document(n * size, "host");
        let cuts: Vec<usize> = (1..n).map(|i| i * size).collect();
        let mut b = blocks(&doc, &cuts, cx.flag(), 0);
        let broken = cx.flag();
        if broken && n > 1 {
            b.pop();
        }
        let data = wire::encode(&b);
        let want = if broken && n > 1 { None } else { Some(doc) };
        cx.step(&(n, size, broken), &want.as_ref().map(|w| w.len()));
        cx.note(|| format!("{n} blocks of {size} bytes, last one missing: {broken}"));
        cx.input(&data);
        let got = real_text(&data)?;
        cx.compared();
        cx.outcome(&got);
        same_text(&got, &want)
    });
    prop(vec![splits, places, several, chars, cuts, short, conf, whole, far_off, many]).assume(&[
        "a report begins with {\"version\":  inside its first block, as the recorder writes it, and has that text nowhere else",
        "the blocks of a report follow one another; the last one has number 0",
    ])
}

// --- C17 -------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Text,
    Int,
}
use Kind::*;
pub const KEYS: [(&str, Kind); 26] = [
    ("*admin", Text), ("deathmatch", Int), ("epoch", Int), ("fpd", Int), ("fraglimit", Int), ("*gamedir", Text),
    ("hostname", Text), ("ktxmode", Text), ("ktxver", Text), ("map", Text), ("matchtag", Text), ("maxclients", Int),
    ("maxfps", Int), ("maxspectators", Int), ("mode", Text), ("needpass", Int), ("pm_ktjump", Int), ("*progs", Text),
    ("*qvm", Text), ("status", Text), ("serverdemo", Text), ("sv_antilag", Int), ("teamplay", Int),
    ("timelimit", Int), ("*version", Text), ("*z_ext", Int),
];

fn settings_of(s: &mvdparser::Settings) -> BTreeMap<&'static str, String> {
    let t = |o: &Option<String>| o.clone();
    let i = |o: &Option<i32>| o.map(|v| v.to_string());
    let v: [Option<String>; 26] = [
        t(&s.admin), i(&s.deathmatch), i(&s.epoch), i(&s.fpd), i(&s.fraglimit), t(&s.gamedir),
        t(&s.hostname), t(&s.ktxmode), t(&s.ktxver), t(&s.map), t(&s.matchtag), i(&s.maxclients),
        i(&s.maxfps), i(&s.maxspectators), t(&s.mode), i(&s.needpass), i(&s.pm_ktjump), t(&s.progs),
        t(&s.qvm), t(&s.status), t(&s.serverdemo), i(&s.sv_antilag), i(&s.teamplay),
        i(&s.timelimit), t(&s.version), i(&s.z_ext),
    ];
    KEYS.iter().zip(v).filter_map(|((k, _), v)| Some((*k, v?))).collect()
}

/// what the settings should be, from the recorded pairs
fn expected_settings(pairs: &[(Vec<u8>, Vec<u8>)]) -> BTreeMap<&'static str, String> {
    let mut m = BTreeMap::new();
    for (k, v) in pairs {
        let k = text::readable(k);
        let Some((key, kind)) = KEYS.iter().find(|(n, _)| *n == k) else { continue };
        let v = text::readable(v);
        match kind {
            Text => {
                m.insert(*key, v);
            }
            Int => {
                // what was recorded last counts
                match v.parse::<i32>() {
                    Ok(n) => m.insert(*key, n.to_string()),
                    Err(_) => m.remove(key),
                };
            }
        }
    }
    m
}

fn check_settings(cx: &mut Ctx, pairs: &[(Vec<u8>, Vec<u8>)], pad: usize) -> Verdict {
    let mut info = vec![];
    for i in 0..pairs.len() {
        let (k, v) = &pairs[i];
        info.push(b'\\');
        info.extend_from_slice(k);
        info.push(b'\\');
        info.extend_from_slice(v);
        cx.step(&(k, v), &pairs[..=i]);
    }
    let o = Opening { serverinfo: info.clone(), pad, clients: vec![Client::named(0, "a", "b")], slots: 4, ..Default::default() };
    let data = wire::encode(&o.frames());
    cx.note(|| format!("pad {pad}, text {:?}", wire::unlatin1(&info)));
    cx.input(&data);
    check_settings_data(cx, &data, if info.is_empty() { None } else { Some((text::readable(&info), expected_settings(pairs))) })
}

fn check_settings_data(cx: &mut Ctx, data: &[u8], want: Option<(String, BTreeMap<&'static str, String>)>) -> Verdict {
    let s = api("serverinfo_string", || mvdparser::serverinfo_string(data).ok())?;
    let m = api("serverinfo", || mvdparser::serverinfo(data).ok())?;
    let f = api("filename", || mvdparser::filename(data).ok())?;
    cx.compared();
    cx.outcome(&(&s, &f));
    same("serverinfo text", &s, &want.as_ref().map(|w| w.0.clone()))?;
    same("settings", &m.as_ref().map(settings_of), &want.as_ref().map(|w| w.1.clone()))?;
    same("file name", &f, &want.and_then(|w| w.1.get("serverdemo").cloned()))
}

pub fn c17(_t: Tier) -> Prop {
    fn b(s: &str) -> Vec<u8> {
        wire::latin1(s)
    }
    let orders = scenario("settings in every order", (0, 0), |cx| {
        let mut left: Vec<(&str, Kind)> = KEYS.to_vec();
        left.push(("unknown", Text));
        left.push(("xmap", Text));
        let n = cx.choose(cx.by(4, 4));
        let mut pairs = vec![];
        for i in 0..n {
            let (k, kind) = left.remove(cx.choose(left.len()));
            let v = match kind {
                Int => ["4", "-12", "1716233132", "x1"][i],
                Text => ["dm2", "4on4_a_vs_b[dm2]20240426-1716.mvd", "QUAKE.SE KTX:28501", "map"][i],
            };
            pairs.push((b(k), b(v)));
        }
        if !cx.quick() && n == 3 {
            // every key in front of and behind everything else
            let (k, kind) = left[cx.choose(left.len())];
            pairs.push((b(k), b(if kind == Int { "7" } else { "last" })));
        }
        check_settings(cx, &pairs, 0)
    });
    let ints = scenario("numbers and what is not a number", (0, 0), |cx| {
        let ks: Vec<&str> = KEYS.iter().filter(|k| k.1 == Int).map(|k| k.0).collect();
        let k = *cx.pick(&ks);
        let v = *cx.pick(&["0", "1", "-1", "12", "2147483647", "-2147483648", "2147483648", "99999999999", "abc", "1.5", "1x", "0x10", "-", "12 3", "\u{b1}\u{b2}", "\u{13}\u{14}"]);
        let pos = cx.choose(3);
        let mut pairs = vec![(b("hostname"), b("h")), (b("serverdemo"), b("f.mvd"))];
        pairs.insert(pos, (b(k), b(v)));
        check_settings(cx, &pairs, 0)
    });
    let chars = scenario("every character of a value", (0, 0), |cx| {
        let c = 1 + cx.choose(255) as u8;
        let r = text::readable_byte(c);
        if r == '\\' || r == '"' {
            return Ok(());
        }
        let mut v = match cx.choose(3) {
            0 => vec![c],
            1 => vec![b'a', c, b'b'],
            _ => vec![c, b'x', c],
        };
        if c == b'"' {
            v = vec![b'x'];
        }
        let k = *cx.pick(&["hostname", "serverdemo", "mode", "*admin"]);
        let pairs = vec![(b("maxfps"), b("77")), (b(k), v), (b("map"), b("dm2"))];
        check_settings(cx, &pairs, 0)
    });
    let quoted = scenario("text that the readable form turns into delimiters", (0, 0), |cx| {
        // only the text itself is promised here
        let c = *cx.pick(&[0xdcu8, 0xa2, 0x8d, 0x8a, 0xff, 0x7f]);
        let v = vec![b'a', c, b'b'];
        let mut info = b"\\map\\".to_vec();
        info.extend_from_slice(&v);
        let pad = cx.choose(3) * 50;
        let o = Opening { serverinfo: info.clone(), pad, ..Default::default() };
        let data = wire::encode(&o.frames());
        cx.step(&c, &info);
        cx.input(&data);
        let s = api("serverinfo_string", || mvdparser::serverinfo_string(&data).ok())?;
        cx.compared();
        same("serverinfo text", &s, &Some(text::readable(&info)))
    });
    let place = scenario("every place and length in the opening", (0, 0), |cx| {
        // start of the text at 65+pad+.. up to 256, its length up to 1023, all of it in the first 1280 bytes
        let base = {
            let o = Opening::default();
            let d = wire::encode(&o.frames());
            d.windows(16).position(|w| w == b"fullserverinfo \"").unwrap()
        };
        let pad = cx.choose(256 - base);
        let start = base + pad + 16;
        let room = 1280 - start - 1; // the closing quote must fit
        let lens = [1usize, 2, 20, 255, 256, 511, 512, 700, 999, room - 1, room];
        let n = lens[cx.choose(lens.len())].min(room);
        let mut info = vec![];
        let mut pairs = vec![];
        if n < 20 {
            pairs.push((b("map"), vec![b'm'; n]));
        } else {
            // fill up with an unknown key in the middle
            let last = b("\\serverdemo\\end.mvd");
            pairs.push((b("map"), b("dm3")));
            let rest = n.saturating_sub("\\map\\dm3".len() + last.len() + "\\fill\\".len());
            if rest > 0 {
                pairs.push((b("fill"), vec![b'f'; rest]));
            }
            pairs.push((b("serverdemo"), b("end.mvd")));
        }
        for (k, v) in &pairs {
            info.push(b'\\');
            info.extend_from_slice(k);
            info.push(b'\\');
            info.extend_from_slice(v);
        }
        if start + info.len() + 1 > 1280 {
            return Ok(());
        }
        check_settings(cx, &pairs, pad)
    });
    let absent = scenario("no server settings", (0, 0), |cx| {
        let mut frames = match cx.choose(5) {
            0 => vec![],
            1 => Opening { serverinfo: vec![], ..Default::default() }.frames(),
            2 => vec![Frame::all(0, msg::stufftext(b"fullserverinfo \\map\\dm2\n"))],
            3 => vec![Frame::all(0, msg::stufftext(b"serverinfo \"\\map\\dm2\"\n"))],
            _ => vec![Frame::all(0, msg::stufftext(b"fullserverinfo \"\\map\\dm2"))],
        };
        for _ in 0..cx.choose(3) {
            frames.push(Frame::all(10, msg::print(2, b"hello there\n")));
        }
        let data = wire::encode(&frames);
        cx.step(&data, &0);
        cx.input(&data);
        cx.note(|| clip(format!("{frames:?}")));
        check_settings_data(cx, &data, None)
    });
    let later = scenario("later changes do not matter", (0, 0), |cx| {
        // single settings that change during the recording are not part of the full text
        let mut frames = Opening { serverinfo: b"\\map\\dm2\\status\\Countdown\\serverdemo\\a.mvd".to_vec(), slots: 4, ..Default::default() }.frames();
        for _ in 0..cx.by(3, 5) {
            let m = match cx.choose(4) {
                0 => msg::serverinfo(b"status", b"Standby"),
                1 => msg::stufftext(b"fullserverinfo \"\\map\\e1m2\\serverdemo\\b.mvd\"\n"),
                2 => msg::print(2, b"fullserverinfo \"\\mode\\hoonymode\"\n"),
                _ => msg::serverinfo(b"serverdemo", b"c.mvd"),
            };
            frames.push(Frame::all(5, m));
        }
        let data = wire::encode(&frames);
        cx.step(&data, &frames.len());
        cx.input(&data);
        let want: BTreeMap<&'static str, String> = [("map", "dm2"), ("status", "Countdown"), ("serverdemo", "a.mvd")].iter().map(|(k, v)| (*k, v.to_string())).collect();
        check_settings_data(cx, &data, Some(("\\map\\dm2\\status\\Countdown\\serverdemo\\a.mvd".into(), want)))
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, _)) = demo_choice(cx) else { return Ok(()) };
        let mut want = None;
        'f: for f in wire::decode(d).iter().take(50) {
            let Some(m) = f.messages() else { continue };
            let n = b"fullserverinfo \"";
            if let Some(p) = m.windows(n.len()).position(|w| w == n) {
                let t = &m[p + n.len()..];
                let e = t.iter().position(|c| *c == b'"').unwrap_or(t.len());
                let t = &t[..e];
                let parts: Vec<&[u8]> = t.split(|c| *c == b'\\').skip(1).collect();
                let pairs: Vec<_> = parts.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0].to_vec(), c[1].to_vec())).collect();
                want = Some((text::readable(t), expected_settings(&pairs)));
                break 'f;
            }
        }
        cx.step(&d.len(), &want);
        check_settings_data(cx, d, want)
    });
    let alike = scenario("values and keys that read like keys", (0, 0), |cx| {
        let (key, kind) = KEYS[cx.choose(KEYS.len())];
        let value = match cx.choose(8) {
            0 => key.to_string(),
            1 => key.trim_start_matches('*').to_string(),
            2 => format!("{key}1"),
            3 => format!("x{key}"),
            4 => format!("{key} 1"),
            5 => key.to_uppercase(),
            6 => format!("*{key}"),
            _ => format!(" {key}"),
        };
        let of = *cx.pick(&["hostname", "serverdemo", "map", "mode", "status", "*admin", "unknown", ""]);
        let has = cx.choose(3);
        let first = if of.is_empty() {
            if KEYS.iter().any(|k| k.0 == value) {
                return Ok(());
            }
            (value, "3".to_string())
        } else {
            (of.to_string(), value)
        };
        let mut pairs = vec![(b(&first.0), b(&first.1)), (b("maxfps"), b("77"))];
        if first.0 == "maxfps" || key == "maxfps" {
            pairs.pop();
        }
        if has > 0 && first.0 != key {
            let v = (b(key), b(if kind == Int { "7" } else { "v" }));
            pairs.insert(if has == 1 { 0 } else { 1 }, v);
        }
        check_settings(cx, &pairs, 0)
    });
    prop(vec![orders, ints, chars, quoted, place, absent, later, conf, alike]).assume(&[
        "the text ends within the first 1280 bytes of the recording, the room the reader has for it",
        "no key occurs twice, no value is empty or holds a quote or a (coloured) backslash: the game does not record such settings",
        "the text does not end in white space",
    ])
}

// --- C18 -------------------------------------------------------------------------------------

/// days since 1970-01-01 of a date, if there is such a date
pub fn days(y: i64, m: i64, d: i64) -> Option<i64> {
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let len = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if !(1..=12).contains(&m) || d < 1 || d > len[m as usize - 1] {
        return None;
    }
    let mut n = 0;
    let mut year = 1970;
    while year < y {
        n += if (year % 4 == 0 && year % 100 != 0) || year % 400 == 0 { 366 } else { 365 };
        year += 1;
    }
    while year > y {
        year -= 1;
        n -= if (year % 4 == 0 && year % 100 != 0) || year % 400 == 0 { 366 } else { 365 };
    }
    Some(n + len[..m as usize - 1].iter().sum::<i64>() + d - 1)
}

/// abbreviation, offset in minutes; an abbreviation may be listed more than once
pub const ZONES: &[(&str, i64)] = &[
    ("ACDT", 630), ("ACST", 570), ("ACT", 570), ("ACWST", 525), ("ADT", -180), ("AEDT", 660), ("AEST", 600),
    ("AFT", 270), ("AKDT", -480), ("AKST", -540), ("ALMT", 360), ("AMST", -180), ("AMT", 240), ("ANAT", 720),
    ("AQTT", 300), ("ART", -180), ("AST", 180), ("AST", -240), ("AWST", 480), ("AZOST", 0), ("AZOT", -60),
    ("AZT", 240), ("BIOT", 360), ("BIT", -720), ("BNT", 480), ("BOT", -240), ("BRST", -120), ("BRT", -180),
    ("BST", 60), ("BTT", 360), ("CAT", 120), ("CCT", 390), ("CDT", -300), ("CEST", 120), ("CET", 60),
    ("CHADT", 825), ("CHAST", 765), ("CHOST", 540), ("CHOT", 480), ("CHST", 600), ("CHUT", 600), ("CIST", -480),
    ("CKT", -600), ("CLST", -180), ("CLT", -240), ("COST", -240), ("COT", -300), ("CST", -360), ("CVT", -60),
    ("CWST", 525), ("CXT", 420), ("DAVT", 420), ("DDUT", 600), ("DFT", 60), ("EASST", -300), ("EAST", -360),
    ("EAT", 180), ("ECT", -300), ("EDT", -240), ("EEST", 180), ("EET", 120), ("EGST", 0), ("EGT", -60),
    ("EST", -300), ("FET", 180), ("FJT", 720), ("FKST", -180), ("FKT", -240), ("FNT", -120), ("GALT", -360),
    ("GAMT", -540), ("GET", 240), ("GFT", -180), ("GILT", 720), ("GIT", -540), ("GMT", 0), ("GST", -120),
    ("GYT", -240), ("HAEC", 120), ("HDT", -540), ("HKT", 480), ("HMT", 300), ("HOVST", 480), ("HOVT", 420),
    ("HST", -600), ("ICT", 420), ("IDLW", -720), ("IDT", 180), ("IOT", 360), ("IRDT", 270), ("IRKT", 480),
    ("IRST", 210), ("IST", 60), ("JST", 540), ("KALT", 120), ("KGT", 360), ("KOST", 660), ("KRAT", 420),
    ("KST", 540), ("LHST", 630), ("LHST", 660), ("LINT", 840), ("MAGT", 720), ("MART", -570), ("MAWT", 300),
    ("MDT", -360), ("MEST", 120), ("MET", 60), ("MHT", 720), ("MIST", 660), ("MIT", -570), ("MMT", 390),
    ("MSK", 180), ("MST", -420), ("MUT", 240), ("MVT", 300), ("MYT", 480), ("NCT", 660), ("NDT", -150),
    ("NFT", 660), ("NOVT", 420), ("NPT", 345), ("NST", -210), ("NT", -210), ("NUT", -660), ("NZDT", 780),
    ("NZST", 720), ("OMST", 360), ("ORAT", 300), ("PDT", -420), ("PET", -300), ("PETT", 720), ("PGT", 600),
    ("PHOT", 780), ("PHST", 480), ("PHT", 480), ("PKT", 300), ("PMDT", -120), ("PMST", -180), ("PONT", 660),
    ("PST", -480), ("PWT", 540), ("PYST", -180), ("PYT", -240), ("RET", 240), ("ROTT", -180), ("SAKT", 660),
    ("SAMT", 240), ("SAST", 120), ("SBT", 660), ("SCT", 240), ("SDT", -600), ("SGT", 480), ("SLST", 330),
    ("SRET", 660), ("SRT", -180), ("SST", 480), ("SYOT", 180), ("TAHT", -600), ("TFT", 300), ("THA", 420),
    ("TJT", 300), ("TKT", 780), ("TLT", 540), ("TMT", 300), ("TOT", 780), ("TRT", 180), ("TST", 480), ("TVT", 720),
    ("ULAST", 540), ("ULAT", 480), ("UTC", 0), ("UYST", -120), ("UYT", -180), ("UZT", 300), ("VET", -240),
    ("VLAT", 600), ("VOLT", 180), ("VOST", 360), ("VUT", 660), ("WAKT", 720), ("WAST", 120), ("WAT", 60),
    ("WEST", 60), ("WET", 0), ("WGST", -120), ("WGT", -180), ("WIB", 420), ("WIT", 540), ("WITA", 480),
    ("WST", 480), ("YAKT", 540), ("YEKT", 300),
];

fn zone(z: &str) -> Vec<i64> {
    let v: Vec<i64> = ZONES.iter().filter(|(a, _)| *a == z).map(|(_, o)| *o).collect();
    if !v.is_empty() {
        return v;
    }
    let b = z.as_bytes();
    let sign = match b.first() {
        Some(b'+') => 1,
        Some(b'-') => -1,
        _ => return vec![],
    };
    if !(b.len() == 3 || b.len() == 5) || !b[1..].iter().all(|c| c.is_ascii_digit()) {
        return vec![];
    }
    let h: i64 = z[1..3].parse().unwrap();
    let m: i64 = if b.len() == 5 { z[3..5].parse().unwrap() } else { 0 };
    if m > 59 || h * 60 + m > 720 {
        return vec![];
    }
    vec![sign * (h * 60 + m)]
}

/// possible instants of a matchdate text
fn instants(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64, z: &str) -> Vec<i64> {
    if h > 23 || mi > 59 || s > 59 {
        return vec![];
    }
    let Some(dd) = days(y, mo, d) else { return vec![] };
    zone(z).iter().map(|o| dd * 86400 + h * 3600 + mi * 60 + s - o * 60).collect()
}

fn check_stamp(cx: &mut Ctx, epoch: Option<&str>, texts: &[String], want_date: &[i64], want_epoch: Option<i64>) -> Verdict {
    let mut info = "\\map\\dm2".to_string();
    if let Some(e) = epoch {
        info += &format!("\\epoch\\{e}");
    }
    info += "\\mode\\4on4";
    let mut frames = Opening { serverinfo: info.into_bytes(), slots: 2, ..Default::default() }.frames();
    for t in texts {
        frames.push(Frame::all(9, msg::print(2, format!("matchdate: {t}").as_bytes())));
        frames.push(Frame::all(9, msg::print(2, b"hi\n")));
    }
    let data = wire::encode(&frames);
    cx.step(&(epoch, texts), &(want_date, want_epoch));
    cx.note(|| format!("epoch {epoch:?}, matchdates {texts:?}, expected {want_epoch:?} else one of {want_date:?}"));
    cx.input(&data);
    check_stamp_data(cx, &data, want_date, want_epoch)
}

fn check_stamp_data(cx: &mut Ctx, data: &[u8], want_date: &[i64], want_epoch: Option<i64>) -> Verdict {
    let conv = |d: chrono::DateTime<chrono::Utc>| (d.timestamp(), d.timestamp_subsec_nanos());
    let md = api("matchdate", || mvdparser::all::matchdate(data).ok().map(conv))?;
    let ts = api("timestamp", || mvdparser::timestamp(data).ok().map(conv))?;
    let te = api("timestamp_from_epoch", || mvdparser::all::timestamp_from_epoch(data).ok().map(conv))?;
    cx.compared();
    cx.outcome(&(md, ts));
    let ok = match md {
        None => want_date.is_empty(),
        Some((s, n)) => want_date.contains(&s) && n == 0,
    };
    if !ok {
        return bad(format!("matchdate: got {md:?}, expected one of {want_date:?}"));
    }
    same("timestamp from epoch", &te, &want_epoch.map(|e| (e, 0)))?;
    same("timestamp", &ts, &want_epoch.map(|e| (e, 0)).or(md))
}

pub fn c18(_t: Tier) -> Prop {
    fn one(cx: &mut Ctx, y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64, z: &str) -> Verdict {
        let t = format!("{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{s:02} {z}\n");
        check_stamp(cx, None, &[t], &instants(y, mo, d, h, mi, s, z), None)
    }
    let zones = scenario("every known timezone", (0, 0), |cx| {
        let (z, _) = ZONES[cx.choose(ZONES.len())];
        // near the ends of days, months and years, where a wrong sign or size shows in the date
        let (y, mo, d) = *cx.pick(&[(2024, 4, 26), (2023, 12, 31), (2024, 1, 1), (2024, 2, 29), (2024, 3, 1)]);
        let h = *cx.pick(&[0i64, 12, 23]);
        one(cx, y, mo, d, h, 34, 56, z)
    });
    let offsets = scenario("every numeric offset", (0, 0), |cx| {
        let sign = *cx.pick(&["+", "-"]);
        let h = cx.choose(cx.by(15, 100));
        let z = if cx.flag() {
            let m = cx.choose(100);
            format!("{sign}{h:02}{m:02}")
        } else {
            format!("{sign}{h:02}")
        };
        one(cx, 2024, 3, 1, 0, 10, 0, &z)
    });
    let unknown = scenario("unknown timezones", (0, 0), |cx| {
        // two letters, with one known zone's letters perturbed, and odd offsets
        let z = match cx.choose(4) {
            0 => {
                let a = b'A' + cx.choose(26) as u8;
                let b = b'A' + cx.choose(26) as u8;
                format!("{}{}", a as char, b as char)
            }
            1 => cx.pick(&["cest", "Cet", "CETT", "UT", "UTCC", "XYZ", "FOO", "ZZZZZ", "CES T", "123", "1200", "CET+1"]).to_string(),
            2 => cx.pick(&["+1", "-9", "+0", "+100", "-130", "+1x", "+x1", "+-1", "++1", "+1260", "+1201", "-1201", "+9999", "*01", "+ 1", "+1 0"]).to_string(),
            _ => {
                let a = b'A' + cx.choose(26) as u8;
                let (z, _) = ZONES[cx.choose(ZONES.len())];
                let mut t = z.as_bytes().to_vec();
                let at = cx.choose(t.len());
                t[at] = a;
                String::from_utf8(t).unwrap()
            }
        };
        if !(2..=5).contains(&z.len()) {
            return Ok(());
        }
        one(cx, 2024, 3, 1, 0, 10, 0, &z)
    });
    let signed = scenario("every text behind a sign", (0, 0), |cx| {
        let mut z = cx.pick(&["+", "-"]).to_string();
        for _ in 0..1 + cx.choose(4) {
            z.push(*cx.pick(&['0', '1', '2', '3', '9', ':', ' ', '+', '-', 'a']));
        }
        one(cx, 2024, 3, 1, 0, 10, 0, &z)
    });
    let dates = scenario("every date field", (0, 0), |cx| {
        let y = *cx.pick(&[2024i64, 2023, 1999, 2000, 1970, 2038, 2100, 1969, 9999]);
        let mo = cx.choose(14) as i64;
        let d = cx.choose(cx.by(33, 40)) as i64;
        let z = *cx.pick(&["UTC", "+12", "-1200"]);
        one(cx, y, mo, d, 23, 59, 59, z)
    });
    let times = scenario("every time field", (0, 0), |cx| {
        let h = cx.choose(cx.by(26, 100)) as i64;
        let mi = *cx.pick(&[0i64, 1, 29, 30, 58, 59, 60, 61, 99]);
        let s = *cx.pick(&[0i64, 1, 30, 58, 59, 61, 62, 99]);
        let z = *cx.pick(&["CET", "-0130"]);
        one(cx, 2024, 12, 31, h, mi, s, z)
    });
    let sources = scenario("epoch or matchdate, and which matchdate", (0, 0), |cx| {
        let (e, want) = *cx.pick(&[
            (None, None), (Some("0"), Some(0)), (Some("1716233132"), Some(1716233132)), (Some("2147483647"), Some(2147483647)),
            (Some("1"), Some(1)), (Some("-1"), Some(-1)), (Some("abc"), None), (Some("17x"), None),
        ]);
        let good = [("2024-04-26 17:36:13 CEST\n", instants(2024, 4, 26, 17, 36, 13, "CEST")), ("2022-01-04 09:15:00 UTC\n", instants(2022, 1, 4, 9, 15, 0, "UTC"))];
        let bad = ["2024-13-26 17:36:13 CEST\n", "soon\n", "2024-04-26 17:36:13 NOPE\n"];
        let n = cx.choose(3);
        let mut texts = vec![];
        let mut first: Option<Vec<i64>> = None;
        for _ in 0..n {
            let k = cx.choose(5);
            if k < 2 {
                texts.push(good[k].0.to_string());
                first.get_or_insert(good[k].1.clone());
            } else {
                texts.push(bad[k - 2].to_string());
                first.get_or_insert(vec![]);
            }
        }
        check_stamp(cx, e, &texts, &first.unwrap_or_default(), want)
    });
    let malformed = scenario("malformed dates", (0, 0), |cx| {
        // one position of a good date replaced, removed or doubled
        let good = b"2024-04-26 17:36:13 CET\n";
        let i = cx.choose(good.len());
        let mut t = good.to_vec();
        let digit = good[i].is_ascii_digit();
        match cx.choose(4) {
            0 => t[i] = *cx.pick(b"xZ?.\xe9"),
            1 if digit => {
                t.remove(i);
            }
            2 if digit => t.insert(i, b'1'),
            3 => {
                t.truncate(i);
                t.push(b'\n');
            }
            _ => return Ok(()),
        }
        if i == 10 && t.len() == good.len() {
            return Ok(()); // the separator of date and time: how strict to be about it is left open
        }
        if t == good {
            return Ok(());
        }
        if i == 19 && t[20..] == good[20..] {
            return Ok(()); // likewise of time and timezone
        }
        let text = t.clone();
        let mut frames = Opening { slots: 2, ..Default::default() }.frames();
        frames.push(Frame::all(9, msg::print(2, &[b"matchdate: ".as_slice(), &text].concat())));
        if cx.flag() {
            frames.push(Frame::all(9, msg::print(2, b"matchdate: 2022-01-04 09:15:00 UTC\n")));
        }
        let data = wire::encode(&frames);
        cx.step(&text, &0);
        cx.note(|| format!("{:?}", String::from_utf8_lossy(&text)));
        cx.input(&data);
        check_stamp_data(cx, &data, &[], None)
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, _)) = demo_choice(cx) else { return Ok(()) };
        let mut date: Option<Vec<i64>> = None;
        for f in wire::decode(d) {
            let Some(m) = f.messages() else { continue };
            let n = b"\x08\x02matchdate: ";
            if let Some(p) = m.windows(n.len()).position(|w| w == n) {
                let t = String::from_utf8_lossy(&m[p + n.len()..]).to_string();
                let t = t.split('\n').next().unwrap();
                let num = |a: usize, b: usize| t[a..b].parse::<i64>().unwrap();
                date.get_or_insert(instants(num(0, 4), num(5, 7), num(8, 10), num(11, 13), num(14, 16), num(17, 19), &t[20..]));
            }
        }
        let epoch = d[..1280].windows(7).position(|w| w == b"\\epoch\\").map(|p| {
            let t = &d[p + 7..p + 30];
            let e = t.iter().position(|c| !c.is_ascii_digit()).unwrap();
            String::from_utf8_lossy(&t[..e]).parse::<i64>().unwrap()
        });
        cx.step(&d.len(), &(&date, epoch));
        check_stamp_data(cx, d, &date.unwrap_or_default(), epoch)
    });
    let far_off = scenario("far apart and often", (0, 0), |cx| {
        // up to four matchdates, each good, wrong or absent, at a distance from one another and from the start
        let between = far(cx);
        let (fill, _) = filler(between);
        let n = 1 + cx.choose(if between > 0x40000 { 2 } else { 3 });
        let before = cx.flag();
        let epoch = cx.flag();
        let mut o = Opening { slots: 2, ..Default::default() };
        if epoch {
            o.serverinfo.extend_from_slice(b"\\epoch\\1716233132");
        }
        let mut data = wire::encode(&o.frames());
        let mut want: Option<Vec<i64>> = None;
        for i in 0..n {
            if before || i > 0 {
                data.extend_from_slice(&fill);
            }
            let t = match cx.choose(3) {
                0 => {
                    want.get_or_insert(instants(2024, 1 + i as i64, 26, 17, 36, 13, "CEST"));
                    format!("matchdate: 2024-{:02}-26 17:36:13 CEST\n", 1 + i)
                }
                1 => {
                    want.get_or_insert(vec![]);
                    "matchdate: 2024-14-26 17:36:13 CEST\n".to_string()
                }
                _ => "The match has begun!\n".to_string(),
            };
            data.extend(wire::encode(&[Frame::all(9, msg::print(2, t.as_bytes()))]));
        }
        data.extend_from_slice(&fill);
        data.extend(wire::encode(&[wire::end_of_demo()]));
        cx.step(&(between, n, before, epoch), &want);
        cx.note(|| format!("{n} prints {between} bytes apart, epoch {epoch}, expected date {want:?}"));
        cx.input(&data);
        check_stamp_data(cx, &data, &want.unwrap_or_default(), epoch.then_some(1716233132))
    });
    let repeats = scenario("the same matchdate again and again", (0, 0), |cx| {
        let n = cx.choose(cx.by(70, 300));
        let other = cx.choose(n + 1);
        let mut frames = Opening { slots: 2, ..Default::default() }.frames();
        for i in 0..n {
            let y = if i == other { 2023 } else { 2024 };
            frames.push(Frame::all(9, msg::print(2, format!("matchdate: {y}-04-26 17:36:13 UTC\n").as_bytes())));
        }
        let want = match (n, other) {
            (0, _) => vec![],
            (_, 0) => instants(2023, 4, 26, 17, 36, 13, "UTC"),
            _ => instants(2024, 4, 26, 17, 36, 13, "UTC"),
        };
        let data = wire::encode(&frames);
        cx.step(&(n, other), &want);
        cx.note(|| format!("{n} prints, number {other} with another year"));
        cx.input(&data);
        check_stamp_data(cx, &data, &want, None)
    });
    let every = scenario("every day and every second", (0, 0), |cx| {
        // all dates of the years 1970 to 2105 at midnight, all seconds of some days
        if cx.flag() {
            let y = 1970 + cx.choose(136) as i64;
            let mo = 1 + cx.choose(12) as i64;
            let d = 1 + cx.choose(31) as i64;
            one(cx, y, mo, d, 0, 0, 0, "UTC")
        } else {
            let (y, mo, d) = *cx.pick(&[(2024, 4, 26), (2023, 12, 31), (2024, 2, 29)]);
            let h = cx.choose(24) as i64;
            let mi = cx.choose(60) as i64;
            let s = if cx.quick() { [0, 1, 9, 10, 59][cx.choose(5)] } else { cx.choose(60) as i64 };
            let z = if cx.quick() { "CET" } else { *cx.pick(&["CET", "AEST", "PDT"]) };
            one(cx, y, mo, d, h, mi, s, z)
        }
    });
    let epochs = scenario("every digit of an epoch", (0, 0), |cx| {
        let n = 1 + cx.choose(10);
        let lead = cx.choose(10) as i64;
        let rest = *cx.pick(&[0i64, 9, 1, 7]);
        let mut e = lead;
        for i in 1..n {
            e = e * 10 + if rest == 7 { (lead + i as i64) % 10 } else { rest };
        }
        if e > i32::MAX as i64 {
            return Ok(());
        }
        let e = if cx.flag() { -e } else { e };
        check_stamp(cx, Some(&e.to_string()), &["2024-04-26 17:36:13 CEST\n".to_string()], &instants(2024, 4, 26, 17, 36, 13, "CEST"), Some(e))
    });
    prop(vec![zones, offsets, unknown, signed, dates, times, sources, malformed, conf, far_off, repeats, every, epochs]).assume(&[
        "the meaning of each timezone abbreviation is the listed one; AST and LHST have two",
        "no second 60; an epoch fits 32 bits; how strictly the separators between date, time and timezone are read is left open",
    ])
}

// --- C19 -------------------------------------------------------------------------------------

const STOPPED: &[u8] = b"\xCD\xE1\xF4\xE3\xE8 \xF3\xF4\xEF\xF0\xF0\xE5\xE4 \xE2\xF9 \xED\xE1\xEA\xEF\xF2\xE9\xF4\xF9 \xF6\xEF\xF4\xE5\n";

#[derive(Clone, Debug, Hash)]
struct Facts {
    valid: bool,
    aborted: bool,
    paused: bool,
}

fn check_verdicts(cx: &mut Ctx, data: &[u8], f: &Facts) -> Verdict {
    cx.input(data);
    let got = (
        api("is_valid", || mvdparser::is_valid(data))?,
        api("is_aborted", || mvdparser::is_aborted(data))?,
        api("is_paused", || mvdparser::is_paused(data))?,
    );
    cx.compared();
    cx.outcome(&got);
    same("(valid, aborted, paused)", &got, &(f.valid, f.aborted, f.paused))
}

/// adds frames until the recording has exactly `total` bytes (the end included)
fn fill(frames: &mut Vec<Frame>, end: &[Frame], total: usize) -> bool {
    let have = frames.iter().chain(end).map(|f| f.len()).sum::<usize>();
    if have > total {
        return false;
    }
    let mut rest = total - have;
    if rest == 0 {
        return true;
    }
    if rest % 2 == 1 || rest >= 6 {
        if rest < 7 {
            return false;
        }
        let n = rest - 6;
        frames.push(Frame::all(1, vec![0; n]));
        rest = 0;
    }
    while rest > 0 {
        frames.push(Frame::to(1, 7, 0, vec![]));
        rest -= 2;
    }
    true
}

pub fn c19(_t: Tier) -> Prop {
    // a recording small enough to go below the size limit
    fn small(info: bool, clients: usize) -> Vec<Frame> {
        let mut b = vec![];
        if info {
            b.extend(msg::stufftext(b"fullserverinfo \"\\map\\dm2\\mode\\1on1\"\n"));
        } else {
            b.extend(msg::stufftext(b"serverinfo is not here\n"));
        }
        let mut v = vec![Frame::all(0, b), Frame::all(0, msg::stufftext(b"cmd spawn 1 0\n"))];
        let mut b = vec![];
        for i in 0..4u8 {
            let t: &[u8] = if (i as usize) < clients { b"\\name\\somebody\\team\\red" } else { b"" };
            b.extend(msg::userinfo(i, i as u32, t));
        }
        v.push(Frame::all(0, b));
        v
    }
    fn end(kind: usize) -> (Vec<Frame>, bool) {
        let e = |t: &[u8]| {
            let mut b = vec![2];
            b.extend_from_slice(t);
            Frame::all(0, b)
        };
        match kind {
            0 => (vec![wire::end_of_demo()], true),
            1 => (vec![], false),
            2 => (vec![e(b"EndOfDem\0")], false),
            3 => (vec![e(b"endofdemo\0")], false),
            4 => (vec![e(b"EndOfDemo")], false),
            5 => (vec![wire::end_of_demo(), Frame::all(0, vec![])], false),
            6 => (vec![Frame::all(0, msg::print(2, b"EndOfDemo"))], false),
            7 => (vec![wire::end_of_demo(), wire::end_of_demo()], true),
            8 => (vec![Frame::all(255, [&[2][..], b"EndOfDemo\0"].concat())], true),
            _ => (vec![Frame::all(4, [&msg::print(2, b"bye\n")[..], &[2], b"EndOfDemo\0"].concat())], true),
        }
    }
    let truth = scenario("all combinations of the ingredients", (0, 0), |cx| {
        let info = cx.flag();
        let clients = cx.choose(3);
        let (e, ended) = end(cx.choose(10));
        let sizes = [0usize, 512, 1000, 1010, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030, 1279, 1280, 1281, 2048, 5000, 70000];
        let total = sizes[cx.choose(sizes.len())];
        let mut f = small(info, clients);
        if total != 0 && !fill(&mut f, &e, total) {
            return Ok(());
        }
        f.extend(e);
        let data = wire::encode(&f);
        let facts = Facts { valid: data.len() >= 1024 && ended && info && clients > 0, aborted: false, paused: false };
        cx.step(&(info, clients, ended, data.len()), &facts);
        cx.note(|| format!("{} bytes, settings {info}, clients {clients}, proper end {ended}", data.len()));
        check_verdicts(cx, &data, &facts)?;
        let got = (
            api("has_clients", || mvdparser::all::has_clients(&data))?,
            api("has_end_of_demo_print", || mvdparser::all::has_end_of_demo_print(&data))?,
        );
        same("(has clients, has end)", &got, &(clients > 0, ended))
    });
    let around = scenario("every size around the limit", (0, 0), |cx| {
        let total = 940 + cx.choose(cx.by(170, 1200));
        let (e, ended) = end(cx.choose(2));
        let mut f = small(true, 1);
        if !fill(&mut f, &e, total) {
            return Ok(());
        }
        f.extend(e);
        let data = wire::encode(&f);
        let facts = Facts { valid: data.len() >= 1024 && ended, aborted: false, paused: false };
        cx.step(&(ended, data.len()), &facts);
        cx.note(|| format!("{} bytes, proper end {ended}", data.len()));
        check_verdicts(cx, &data, &facts)
    });
    let texts = scenario("announcements and near misses, anywhere", (0, 0), |cx| {
        let (full, ab, pa): (Vec<u8>, bool, bool) = {
            let p = |l: u8, t: &[u8]| msg::print(l, t);
            let cases: Vec<(Vec<u8>, bool, bool)> = vec![
                (p(2, STOPPED), true, false),
                (p(1, STOPPED), false, false),
                (p(3, STOPPED), false, false),
                (p(2, &STOPPED[1..]), false, false),
                (p(2, &STOPPED[..STOPPED.len() - 1]), false, false),
                (p(2, b"Match stopped by majority vote\n"), false, false),
                (p(2, &[b"x: ".as_slice(), STOPPED].concat()), false, false),
                (p(2, b"Server is paused\n"), false, true),
                (p(3, b"Server is paused"), false, true),
                (p(2, b"ann paused the game\n"), false, true),
                (p(2, b"paused the game"), false, true),
                (p(2, b"Server is unpaused\n"), false, false),
                (p(2, b"ann resumed the game\n"), false, false),
                (p(2, b"server is paused\n"), false, false),
                (p(2, b"ann Paused the game\n"), false, false),
                (p(2, b"ann paused the gam\n"), false, false),
                (p(2, b"erver is paused\n"), false, false),
                (msg::stufftext(b"//ktx paused the game\n"), false, true),
                (msg::print(1, b"hello\n"), false, false),
            ];
            cx.pick(&cases).clone()
        };
        let at = cx.choose(4);
        let before = cx.flag();
        let (e, ended) = end(cx.choose(4));
        let big = *cx.pick(&[0usize, 5000, 70000]);
        let mut f = if cx.flag() { small(true, 2) } else { vec![] };
        let has_base = !f.is_empty();
        for i in 0..4 {
            if big > 0 {
                f.push(Frame::all(3, vec![1; big]));
            }
            let mut b = vec![];
            if i == at {
                if before {
                    b.extend(msg::print(1, b"first\n"));
                }
                b.extend_from_slice(&full);
                b.extend(msg::print(0, b"then\n"));
            } else {
                b.extend(msg::print(3, b"chat\n"));
            }
            f.push(Frame::all(3, b));
        }
        f.extend(e);
        let data = wire::encode(&f);
        let facts = Facts { valid: has_base && ended && data.len() >= 1024, aborted: ab, paused: pa && !ended };
        cx.step(&(&full, at, ended, big), &facts);
        cx.note(|| format!("text {:?} in frame {at} of 4, {} bytes, proper end {ended}", String::from_utf8_lossy(&full), data.len()));
        check_verdicts(cx, &data, &facts)
    });
    let offsets = scenario("announcements at every byte position", (0, 0), |cx| {
        let which = cx.choose(3);
        let t: Vec<u8> = match which {
            0 => msg::print(2, STOPPED),
            1 => b"Server is paused".to_vec(),
            _ => b"paused the game".to_vec(),
        };
        let pos = cx.choose(cx.by(300, 3000));
        let after = *cx.pick(&[0usize, 1, 7, 1000]);
        let fill = *cx.pick(&[0u8, 8, b'S', b'p', 0xcd]);
        let mut data = vec![fill; pos];
        data.extend_from_slice(&t);
        data.extend(vec![fill; after]);
        let facts = Facts { valid: false, aborted: which == 0, paused: which != 0 };
        cx.step(&(which, pos, after, fill), &facts);
        cx.note(|| format!("text {which} at byte {pos}, {after} bytes after it, filled with {fill}"));
        check_verdicts(cx, &data, &facts)
    });
    let seqs = scenario("sequences of announcements", (0, 0), |cx| {
        let mut f = small(true, 1);
        f.push(Frame::all(1, vec![0; 1100]));
        let (mut ab, mut pa) = (false, false);
        for _ in 0..cx.by(4, 6) {
            let m = match cx.choose(5) {
                0 => msg::print(2, b"ann paused the game\n"),
                1 => msg::print(2, b"ann unpaused the game\n"),
                2 => msg::print(2, STOPPED),
                3 => msg::print(2, b"The match is over\n"),
                _ => vec![],
            };
            ab |= m == msg::print(2, STOPPED);
            pa |= find(&m, b"paused the game");
            f.push(Frame::all(9, m));
            cx.step(f.last().unwrap(), &(ab, pa));
        }
        let (e, ended) = end(cx.choose(2));
        f.extend(e);
        let data = wire::encode(&f);
        cx.note(|| format!("{:?}", &f[4..]));
        check_verdicts(cx, &data, &Facts { valid: ended, aborted: ab, paused: pa && !ended })
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, _)) = demo_choice(cx) else { return Ok(()) };
        let cut = if cx.flag() { 1 } else { 0 };
        let data = &d[..d.len() - cut];
        let frames = wire::decode(data);
        let ended = cut == 0 && frames.last().and_then(|f| f.messages()).is_some_and(|m| m.ends_with(b"\x02EndOfDemo\0"));
        let roster = super::roster::real_roster(d);
        let info = find(&d[..1280], b"fullserverinfo \"");
        let any = |t: &[u8]| frames.iter().any(|f| f.messages().is_some_and(|m| find(m, t)));
        let facts = Facts {
            valid: ended && info && !roster.is_empty(),
            aborted: any(&msg::print(2, STOPPED)),
            paused: !ended && (any(b"Server is paused") || any(b"paused the game")),
        };
        cx.step(&(d.len(), cut), &facts);
        check_verdicts(cx, data, &facts)
    });
    let kinds = scenario("every kind of roster", (0, 0), |cx| {
        // up to three clients, each a player, a spectator, a bot, nameless or in a team of its own
        let infos: [&[u8]; 6] = [
            b"", b"\\name\\ann\\team\\red", b"\\name\\spec\\*spectator\\1", b"\\name\\bot\\*bot\\1", b"\\*spectator\\1\\name\\x\\team\\red",
            b"\\name\\[ServeMe]\\*spectator\\1",
        ];
        let mut b = vec![];
        let mut any = false;
        for i in 0..3u8 {
            let t = cx.pick(&infos);
            any |= !t.is_empty();
            b.extend(msg::userinfo([0, 1, 31][i as usize], i as u32, t));
        }
        let pairs: [&[u8]; 4] = [b"\\map\\dm2", b"\\map\\dm2\\mode\\hoonymode", b"\\status\\Standby\\epoch\\x", b"\\map\\"];
        let info = *cx.pick(&pairs);
        let text = [&b"fullserverinfo \""[..], info, b"\"\n"].concat();
        let mut f = vec![Frame::all(0, msg::stufftext(&text)), Frame::all(0, msg::stufftext(b"cmd spawn 1 0\n")), Frame::all(0, b)];
        let e = [wire::end_of_demo()];
        let total = *cx.pick(&[1023usize, 1024, 9000]);
        if !fill(&mut f, &e, total) {
            return Ok(());
        }
        f.extend(e);
        let data = wire::encode(&f);
        let facts = Facts { valid: any && data.len() >= 1024, aborted: false, paused: false };
        cx.step(&f[2], &facts);
        cx.note(|| format!("{:?} {:?} {} bytes", f[0], f[2], data.len()));
        check_verdicts(cx, &data, &facts)
    });
    let far_off = scenario("far into the recording", (0, 0), |cx| {
        let (front, back) = (far(cx), far(cx));
        let (full, ab, pa) = match cx.choose(4) {
            0 => (msg::print(2, STOPPED), true, false),
            1 => (msg::print(2, b"ann paused the game\n"), false, true),
            2 => (msg::print(2, b"Server is paused\n"), false, true),
            _ => (msg::print(2, b"The match is over\n"), false, false),
        };
        let (e, ended) = end(cx.choose(2));
        let mut data = wire::encode(&small(true, 1));
        data.extend(filler(front).0);
        data.extend(wire::encode(&[Frame::all(1, full.clone())]));
        data.extend(filler(back).0);
        data.extend(wire::encode(&e));
        let facts = Facts { valid: ended && data.len() >= 1024, aborted: ab, paused: pa && !ended };
        cx.step(&(front, back, &full, ended), &facts);
        cx.note(|| format!("{:?} after {front} and before {back} bytes, proper end {ended}", String::from_utf8_lossy(&full)));
        check_verdicts(cx, &data, &facts)
    });
    let often = scenario("announced many times", (0, 0), |cx| {
        let n = cx.choose(cx.by(300, 2000));
        let which = cx.choose(3);
        let mut f = small(true, 1);
        for i in 0..n {
            let m = match which {
                0 => msg::print(2, STOPPED),
                1 => msg::print(2, format!("p{i} paused the game\n").as_bytes()),
                _ => msg::print(2, b"Server is paused\n"),
            };
            f.push(Frame::all(9, m));
        }
        let (e, ended) = end(cx.choose(2));
        f.extend(e);
        let data = wire::encode(&f);
        let facts = Facts { valid: ended && data.len() >= 1024, aborted: which == 0 && n > 0, paused: which > 0 && n > 0 && !ended };
        cx.step(&(n, which, ended), &facts);
        cx.note(|| format!("announcement {which} {n} times, proper end {ended}"));
        check_verdicts(cx, &data, &facts)
    });
    prop(vec![truth, around, texts, offsets, seqs, conf, kinds, far_off, often])
}
