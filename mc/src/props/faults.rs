//! C01, C02, C23, C24: damaged, truncated and hostile inputs.
use super::history::{base_history, demo_choice};
use super::observe::{CALLS, FUNCS};
use super::*;
use crate::engine::scenario;
use crate::model::*;
use crate::wire::{self, latin1, msg, Body, Client, Frame, Opening};
use crate::{obits, real};
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

const REPORT: &str = "{\"version\": 3,\n\"hostname\": \"h\", \"ip\": \"1.2.3.4\", \"port\": 27500, \"duration\": 600, \"players\": [\n{\"name\": \"ann\", \"team\": \"red\", \"ping\": 12, \"top-color\": 4, \"stats\": {\"frags\": 5}},\n{\"name\": \"bo\", \"team\": \"red\", \"ping\": 10, \"bot\": {}}\n]}\n";

/// Small recordings that between them have something of everything that is read.
pub fn compact(which: usize) -> Vec<Frame> {
    let mut o = Opening::with(vec![
        Client::new(0, &latin1("\\name\\ann\\team\\red\\topcolor\\4\\bottomcolor\\4")),
        Client::new(2, &latin1("\\team\\red\\name\\b\u{e1}b\\*auth\\bobby\\*flag\\se")),
        Client::new(3, &latin1("\\name\\sp\\*spectator\\1")),
        Client::new(4, &latin1("\\*bot\\1\\name\\dan\\team\\blue")),
    ]);
    o.slots = 5;
    o.styles = 1;
    o.serverinfo = match which {
        0 => b"\\maxfps\\77\\mode\\2on2\\serverdemo\\x.mvd".to_vec(),
        1 => b"\\epoch\\1716233132\\mode\\hoonymode\\serverdemo\\x.mvd".to_vec(),
        _ => b"\\mode\\ctf\\fpd\\x".to_vec(),
    };
    let mut f = o.frames();
    if which == 0 {
        let (_, evs) = base_history(0);
        f.extend(evs.iter().map(|e| e.0.frame()));
    } else if which == 1 {
        f.push(Frame::all(9, [msg::ping(0, 10, 0), msg::ping(2, 300, 3)].concat()));
        f.push(Frame::all(9, msg::print(2, b"matchdate: 2024-11-18 21:35:06 +0100\n")));
        f.push(Frame::to(1, 4, 2, msg::print(1, b"ann rides b\xe1b's rocket\n")));
        f.push(Frame::hidden(2, 7, 0, &[1, 2, 3]));
        f.extend(wire::report_frames(REPORT.as_bytes(), &[70, 150]));
    } else {
        let (_, evs) = base_history(2);
        f.extend(evs.iter().skip(3).map(|e| e.0.frame()));
        f.push(Frame::to(0, 2, 9, vec![]));
        f.extend(wire::report_frames(b"{\"version\": 3, \"duration\": 7, \"players\": [{}]}", &[]));
        f.push(Frame::all(1, msg::print(2, b"Server is paused\n")));
    }
    if which < 2 {
        f.push(wire::end_of_demo());
    }
    f
}

pub fn compact_bytes(which: usize) -> &'static [u8] {
    static B: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    &B.get_or_init(|| (0..3).map(|i| wire::encode(&compact(i))).collect())[which]
}

/// What damaged inputs are made of: everything the readers look for, whole and cut short.
fn tokens() -> &'static Vec<Vec<u8>> {
    static T: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    T.get_or_init(|| {
        let block = |mask: u32, framelen: u32, len: u32, typ: u16, num: u16, text: &[u8]| {
            let mut v = vec![0, 3];
            v.extend_from_slice(&mask.to_le_bytes());
            v.extend_from_slice(&framelen.to_le_bytes());
            v.extend_from_slice(&len.to_le_bytes());
            v.extend_from_slice(&typ.to_le_bytes());
            v.extend_from_slice(&num.to_le_bytes());
            v.extend_from_slice(text);
            v
        };
        let ver = b"{\"version\": ";
        let p = |l: u8, t: &str| wire::encode(&[Frame::all(1, msg::print(l, &latin1(t)))]);
        let mut v: Vec<Vec<u8>> = vec![
            vec![0],
            vec![0xff; 4],
            vec![b'\\'],
            vec![b'"'],
            vec![b'\n'],
            vec![0xc3, 0xa9],
            b"fullserverinfo \"".to_vec(),
            b"\\mode\\hoonymode\"".to_vec(),
            b"\\epoch\\99\"".to_vec(),
            b"\x09cmd spawn 1\0".to_vec(),
            b"\\name\\".to_vec(),
            b"\\name\\ann\\team\\red\0".to_vec(),
            b"\x28\x05\x00\x00\x00\x00\\name\\x\\*spectator\\1\0".to_vec(),
            vec![b'x'; 512],
            b"\x08\x02matchdate: ".to_vec(),
            b"2024-11-18 21:35:06 CET\n".to_vec(),
            "2024-11-18 21:35:0\u{e9} CET\n".as_bytes().to_vec(),
            b"The match is over\0".to_vec(),
            b"4status\0Standby\0".to_vec(),
            vec![5, 6, 0, 0, 0, 0],
            vec![5, 6, 3, 0, 0, 0],
            vec![5, 6, 0xff, 0xff, 0xff, 0xff],
            vec![5, 6, 0xff, 0xff, 0xff, 0x7f],
            vec![5, 3, 1, 0, 0, 0, 9, 0, 0, 0],
            vec![5, 3, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff],
            vec![5, 2, 1, 2, 3, 4, 5, 6, 7],
            vec![5, 7],
            vec![8, 1],
            p(1, "ann was nailed by bob\n"),
            p(1, " suicides\n"),
            p(1, "a was telefragged by his teammate"),
            wire::encode(&[Frame::all(1, msg::frags(0, -1))]),
            vec![1, 6, 2, 0, 0, 0, 14, 0],
            wire::encode(&[Frame::all(1, msg::ping(0, 0xffff, 0))]),
            vec![1, 6, 5, 0, 0, 0, 36, 0, 1, 0, 53],
            p(2, "ann"),
            p(2, " çïô the ÒÅÄ flag!\n"),
            p(2, "ann defends the ÒÅÄ flag\n"),
            block(0, 46, 14, 3, 0, ver),
            block(0, 20, 2 + 22, 3, 1, b"{\"version\": 3, \"x\": 1}"),
            block(0, 20, 2 + 22, 3, 0, b"{\"version\": 3, \"x\": 1}"),
            block(0, 8, 0, 3, 0, ver),
            block(0, 8, 0xffff_ffff, 3, 0, ver),
            block(0, 8, 13, 7, 0, ver),
            ver.to_vec(),
            b"EndOfDemo\0".to_vec(),
            b"\x00\x02EndOfDemo\0".to_vec(),
            b"paused the game".to_vec(),
        ];
        v.push(vec![1; 1280]);
        v
    })
}

/// names of the scenarios of hostile inputs
pub type Gen = (&'static str, fn(&mut Ctx, bool) -> Option<Vec<u8>>);

fn splice(d: &[u8], at: usize, cut: usize, ins: &[u8]) -> Vec<u8> {
    let mut v = d[..at].to_vec();
    v.extend_from_slice(ins);
    v.extend_from_slice(&d[(at + cut).min(d.len())..]);
    v
}

/// The second argument asks for the deeper bounds.
pub const GENS: &[Gen] = &[
    ("all strings over the telling bytes", |cx, deep| {
        const A: [u8; 12] = [0, 1, 2, 3, 6, 8, 14, 36, b'\\', b'"', b'\n', 0xff];
        let n = cx.choose(if deep { 6 } else { 5 });
        Some((0..n).map(|_| *cx.pick(&A)).collect())
    }),
    ("strings of tokens", |cx, deep| {
        let t = tokens();
        let n = cx.choose(if deep { 5 } else { 4 });
        let mut v = vec![];
        for i in 0..n {
            // the fourth token only from the structural half
            let k = if i == 3 { cx.choose(24) } else { cx.choose(t.len()) };
            v.extend_from_slice(&t[k]);
        }
        Some(v)
    }),
    ("one byte of a recording replaced", |cx, deep| {
        let d = compact_bytes(cx.choose(3));
        let i = cx.choose(d.len());
        let mut v = d.to_vec();
        if deep {
            v[i] = v[i].wrapping_add(1 + cx.choose(255) as u8);
        } else {
            let old = v[i];
            let alt = [0u8, 0xff, 0x80, 0x7f, b'\\', old ^ 1, old.wrapping_add(1), old.wrapping_sub(1), old ^ 0x80, 8, 3, 2];
            v[i] = *cx.pick(&alt);
        }
        Some(v)
    }),
    ("length fields, kinds and masks", |cx, deep| {
        let mut f = compact(cx.choose(3));
        let k = cx.choose(f.len());
        // bytes before frame k, the damaged frame, the rest
        let rest = wire::encode(&f.split_off(k + 1));
        let mut frame = vec![];
        f.pop().unwrap().encode(&mut frame);
        let mut v = wire::encode(&f);
        let at = v.len();
        match cx.choose(3) {
            0 => frame[1] = cx.choose(256) as u8,
            1 => {
                // a length field; where it is depends on the kind
                let p = if frame[1] & 7 == 3 { 6 + 4 * cx.choose(2) } else { 2 };
                if p + 4 > frame.len() {
                    return None;
                }
                let old = u32::from_le_bytes(frame[p..p + 4].try_into().unwrap());
                let left = (frame.len() + rest.len()) as u32;
                let vals = [0, 1, 2, 3, old.wrapping_sub(1), old + 1, old + 2, old.wrapping_sub(6), left - 6, left - 5, left - 10, left - 9, left, left + 1, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff];
                let new = *cx.pick(&vals);
                frame[p..p + 4].copy_from_slice(&new.to_le_bytes());
            }
            _ => {
                if frame.len() < 6 {
                    return None;
                }
                let new = *cx.pick(&[0u32, 1, 2, 4, 0x8000_0000, 0xffff_ffff]);
                frame[2..6].copy_from_slice(&new.to_le_bytes());
            }
        }
        v.extend_from_slice(&frame);
        v.extend_from_slice(&rest);
        // and the recording ends somewhere soon after
        if deep || cx.flag() {
            let to = at + cx.choose(if deep { (v.len() - at).min(40) + 1 } else { 12.min(v.len() - at) + 1 });
            v.truncate(to);
        }
        Some(v)
    }),
    ("every cut of a recording, from either end", |cx, _| {
        let d = compact_bytes(cx.choose(3));
        let i = cx.choose(d.len() + 1);
        Some(if cx.flag() { d[i..].to_vec() } else { d[..i].to_vec() })
    }),
    ("pieces removed, repeated and inserted", |cx, deep| {
        let d = compact_bytes(cx.choose(3));
        let i = cx.choose(d.len());
        match cx.choose(3) {
            0 => {
                let n = *cx.pick(&[1usize, 2, 3, 4, 5, 8, 16, 100]);
                Some(splice(d, i, n, &[]))
            }
            1 => {
                let n = (*cx.pick(&[1usize, 2, 6, 30])).min(d.len() - i);
                Some(splice(d, i, 0, &d[i..i + n]))
            }
            _ => {
                let t = tokens();
                let k = cx.choose(if deep { t.len() } else { 6 });
                Some(splice(d, i, 0, &t[k]))
            }
        }
    }),
    ("frames removed, repeated and exchanged", |cx, _| {
        let mut f = compact(cx.choose(3));
        let (i, j) = (cx.choose(f.len()), cx.choose(f.len()));
        match cx.choose(3) {
            0 => {
                f.remove(i);
                if j < f.len() {
                    f.remove(j);
                }
            }
            1 => {
                let x = f[i].clone();
                f.insert(j, x);
            }
            _ => f.swap(i, j),
        }
        Some(wire::encode(&f))
    }),
    ("texts of frag prints", |cx, deep| {
        // pieces of obituaries put together every way
        let mut v: Vec<String> = ["", "a", " ", "\n", "a's", "\u{e9}", "by "].iter().map(|s| s.to_string()).collect();
        for (m, e) in obits::KILLS_VK.iter().chain(obits::KILLS_KV.iter()) {
            v.push(m.to_string());
            if !e.is_empty() {
                v.push(e.to_string());
            }
        }
        v.extend(obits::DEATHS.iter().chain(&obits::WEAPON_SUICIDES).chain(&obits::NAMED_TEAMKILLS).chain(&obits::UNNAMED_TEAMKILLS).map(|s| s.to_string()));
        v.push(" suicides".into());
        let n = cx.choose(if deep { 4 } else { 3 });
        let t: String = (0..n).map(|_| v[cx.choose(v.len())].clone()).collect();
        let level = if deep { 1 } else { *cx.pick(&[1u8, 2]) };
        let mut o = Opening::with(vec![Client::named(0, "a", "r"), Client::named(1, "b", "r")]);
        o.slots = 2;
        o.styles = 0;
        let mut f = o.frames();
        f.push(Frame::all(1, [msg::print(level, &latin1(&t)), msg::frags(1, -1)].concat()));
        Some(wire::encode(&f))
    }),
    ("obituaries of hostile names", |cx, deep| {
        // every wording, with names that contain the pieces of every wording
        let mut v: Vec<String> = ["", "a", "\u{e9}", " ", "'s", "\n", "\u{ff}\u{0a}"].iter().map(|s| s.to_string()).collect();
        for (m, e) in obits::KILLS_VK.iter().chain(obits::KILLS_KV.iter()) {
            for x in [m, e] {
                if !x.is_empty() {
                    v.push(x.to_string());
                    v.push(format!("x{x}y"));
                    v.push(format!("{x}{x}"));
                    v.push(x[1..].to_string());
                }
            }
        }
        v.extend(["x suicides", " suicides suicides", "died", " died", "his teammate", "by his teammate", "??", "\"??\""].iter().map(|s| s.to_string()));
        v.sort();
        v.dedup();
        let w = cx.choose(obits::N_WORDINGS);
        let a = v[cx.choose(v.len())].clone();
        let b = if deep { v[cx.choose(v.len())].clone() } else { cx.pick(&["v".to_string(), String::new(), a.clone()]).clone() };
        let (a, b) = if cx.flag() { (b, a) } else { (a, b) };
        let t = obits::wording(w, &a, &b).0;
        Some(wire::encode(&[Frame::all(1, [msg::print(1, &latin1(&format!("{t}\n"))), msg::frags(1, -1)].concat())]))
    }),
    ("zones", |cx, deep| {
        const T: [&str; 14] = ["+", "-", "0", "1", "9", ":", "x", "\u{e9}", "\u{20ac}", "\u{1f600}", " ", "\u{2212}", "CET", "00"];
        let n = cx.choose(if deep { 6 } else { 5 });
        let z: String = (0..n).map(|_| *cx.pick(&T)).collect();
        Some(wire::encode(&[Frame::all(1, msg::print(2, format!("matchdate: 2024-11-18 21:35:06 {z}\n").as_bytes()))]))
    }),
    ("texts of flag prints", |cx, deep| {
        let mut v: Vec<String> = ["", "a", " ", "\n", " the ÒÅÄ flag", " defends", "'s flag carrier"].iter().map(|s| s.to_string()).collect();
        v.extend(obits::FLAGS.iter().flat_map(|(_, n)| n.iter().map(|s| s.to_string())));
        let n = cx.choose(if deep { 4 } else { 3 });
        let ts: Vec<String> = (0..n).map(|_| v[cx.choose(v.len())].clone()).collect();
        let level = *cx.pick(&[2u8, 1]);
        let f: Vec<Frame> = if cx.flag() {
            ts.iter().map(|t| Frame::all(1, msg::print(level, &latin1(t)))).collect()
        } else {
            vec![Frame::all(1, ts.iter().flat_map(|t| msg::print(level, &latin1(t))).collect())]
        };
        Some(wire::encode(&f))
    }),
    ("values of the settings", |cx, deep| {
        let key = if cx.flag() { super::texts::KEYS[cx.choose(super::texts::KEYS.len())].0 } else { *cx.pick(&["", "maxrate", "*z", "teamplay\\2\\timelimit"]) };
        const V: [&str; 22] = [
            "", "0", "-1", "1", "32", "33", "255", "256", "65535", "65536", "1000000", "16777216", "2147483647", "2147483648", "-2147483648", "4294967295", "1000000000000", "9223372036854775807", "x", "\u{ff}\u{a2}", "1.5", "99999999999999999999999999",
        ];
        let val = *cx.pick(&V);
        let other = if deep { V[cx.choose(V.len())] } else { "7" };
        let text = match cx.choose(3) {
            0 => format!("\\{key}\\{val}"),
            1 => format!("\\maxfps\\{other}\\{key}\\{val}\\map\\dm3"),
            _ => format!("\\{key}\\{val}\\maxclients\\{other}\\mode\\{val}"),
        };
        let mut f = vec![Frame::all(0, msg::stufftext(&latin1(&format!("fullserverinfo \"{text}\"\n"))))];
        f.extend(compact(0));
        Some(wire::encode(&f))
    }),
    ("client attributes", |cx, _| {
        let val = *cx.pick(&["", "1", "-1", "255", "256", "99999999", "99999999999", "x", "\u{ff}", "\\", "\"", "1.5", "0x1"]);
        let key = *cx.pick(&["topcolor", "bottomcolor", "*spectator", "*bot", "*auth", "*flag", "team", "name", "chat", "*client", "rate", ""]);
        let form = cx.choose(6);
        let info = match form {
            0 => format!("\\name\\ann\\{key}\\{val}"),
            1 => format!("\\{key}\\{val}\\name\\ann"),
            2 => format!("\\{key}\\{val}\\name\\"),
            3 => format!("name\\ann\\{key}\\{val}\\\\"),
            4 => format!("\\name\\{}\\{key}\\{val}", "n".repeat(260)),
            _ => format!("\\name\\ann\\{key}\\{}{val}", "v".repeat(225)),
        };
        let mut o = Opening::with(vec![Client::new(1, &latin1(&info)), Client::named(2, "z", "z")]);
        o.slots = 3;
        o.styles = 0;
        let mut v = wire::encode(&o.frames());
        if cx.flag() {
            // the recording ends inside the roster
            let n = v.len();
            v.truncate(n - 1 - cx.choose(60));
        }
        Some(v)
    }),
    ("values in the stats report", |cx, _| {
        let n = *cx.pick(&["0", "-1", "1", "2147483647", "-2147483648", "2147483648", "4294967295", "4294967296", "18446744073709551616", "1e308", "1e999", "-0.0", "0.5", "\"5\"", "null", "[]", "{}", "true", "NaN", "5", "1e19", "-1e19"]);
        let form = cx.choose(15);
        let t = match form {
            0 => format!("{{\"version\": 3, \"duration\": {n}}}"),
            1 => format!("{{\"version\": {n}}}"),
            2 => format!("{{\"version\": 3, \"port\": {n}}}"),
            3 => format!("{{\"version\": 3, \"players\": [{{\"ping\": {n}}}, {{\"ping\": {n}}}, {{\"ping\": {n}}}]}}"),
            4 => format!("{{\"version\": 3, \"players\": [{{\"stats\": {{\"frags\": {n}}}}}, {{\"stats\": {{\"frags\": {n}}}}}, {{\"name\": \"z\", \"stats\": {{\"frags\": {n}}}}}]}}"),
            5 => format!("{{\"version\": 3, \"players\": [{{\"top-color\": {n}, \"bottom-color\": {n}}}]}}"),
            6 => format!("{{\"version\": 3, \"players\": {n}}}"),
            7 => format!("{{\"version\": 3, \"players\": [{n}]}}"),
            8 => format!("{{\"version\": 3, \"date\": {n}}}"),
            9 => format!("{{\"version\": 3, \"hostname\": {n}, \"teams\": {n}}}"),
            10 => format!("{{\"version\": 3, \"x\": {}{n}", "[".repeat(100_000)),
            11 => format!("{{\"version\": 3, \"players\": [{{\"speed\": {{\"avg\": {n}}}, \"control\": {n}}}]}}"),
            12 => format!("{{\"version\": 3, \"duration\": 1, \"duration\": {n}}}"),
            13 => format!("{{\"version\": 3, \"hostname\": \"\\uD800{n}\"}}"),
            _ => format!("{{\"version\": 3, \"players\": [{}]}}", vec![format!("{{\"ping\": {n}, \"stats\": {{\"frags\": 2147483647}}}}"); 300].join(",")),
        };
        let mut f = if cx.flag() { compact(0) } else { vec![] };
        f.extend(wire::report_frames(t.as_bytes(), &[20]));
        Some(wire::encode(&f))
    }),
    ("dates", |cx, _| {
        let good = "2024-11-18 21:35:06 CET";
        let i = cx.choose(good.len() + 1);
        let ins: &[u8] = *cx.pick(&[&b""[..], b"9", b"\xc3\xa9", b"\xff", b" ", b"\0", b"-", b"99999", b"\xe2\x88\x92"]);
        let cut = cx.choose(4);
        let mut t = splice(good.as_bytes(), i, cut, ins);
        if cx.flag() {
            t.push(b'\n');
        }
        let zone: &[u8] = *cx.pick(&[&b""[..], b"+", b"-9", b"+99", b"+1\xc3\xa9", b"\xc3\xa9", b"+-1:0", b"+:", b":::::"]);
        if !zone.is_empty() {
            t.truncate(20.min(t.len()));
            t.extend_from_slice(zone);
            t.push(b'\n');
        }
        let mut v = b"\x08\x02matchdate: ".to_vec();
        v.extend_from_slice(&t);
        Some(v)
    }),
    ("times and landmarks in any order", |cx, deep| {
        let n = if deep { 5 } else { 4 };
        let mut f = vec![];
        if cx.flag() {
            f.push(Frame::all(0, msg::stufftext(b"fullserverinfo \"\\mode\\hoonymode\"\n")));
        }
        for _ in 0..n {
            f.push(match cx.choose(6) {
                0 => Frame::all(200, msg::print(2, b"matchdate: 2024-11-18 21:35:06 CET\n")),
                1 => Frame::all(100, msg::print(2, b"The match is over\n")),
                2 => Frame::all(255, msg::serverinfo(b"status", b"Standby")),
                3 => Frame::to(255, 7, 0, vec![]),
                4 => Frame { ms: 77, body: Body::Set(0x2065_6854, 0x6374_616d) },
                _ => Frame::hidden(9, 3, 0, b"{\"version\": 3, \"duration\": 4294967295}"),
            });
        }
        let mut v = wire::encode(&f);
        if cx.flag() {
            let n = v.len();
            v.truncate(n - cx.choose(9).min(n));
        }
        Some(v)
    }),
    ("many events of one kind", |cx, deep| {
        let ns: &[usize] = if deep { &[255, 256, 257, 65535, 65536, 65537, 300_000] } else { &[255, 256, 257, 65536, 66_000] };
        let n = *cx.pick(ns);
        let kind = cx.choose(14);
        let per = *cx.pick(&[1usize, 250, usize::MAX]);
        let t = |s: &str| msg::print(2, &latin1(s));
        let ev = |i: usize| -> Vec<u8> {
            match kind {
                0 => msg::print(1, format!("a{} suicides\n", i % 3).as_bytes()),
                1 => msg::print(1, b"a was nailed by b\n"),
                2 => [t("ann"), t(" çïô the ÒÅÄ flag!\n")].concat(),
                3 => t("ann defends the ÒÅÄ flag\n"),
                4 => msg::ping(1, 65535, 255),
                5 => msg::ping((i % 256) as u8, 65535, 255),
                6 => msg::frags((i % 32) as u8, i as i16),
                7 => t("same"),
                8 => t(&format!("{i}")),
                9 => t("The match is over\n"),
                10 => msg::userinfo((i % 32) as u8, 1, format!("\\name\\n{i}").as_bytes()),
                11 => t("matchdate: 2024-11-18 21:35:06 CET\n"),
                12 => t("bob defends ÒÅÄ's flag carrier against an aggressive enemy\n"),
                _ => msg::print(1, b"ann was telefragged by his teammate\n"),
            }
        };
        let mut o = Opening::with(vec![Client::named(0, "ann", "r"), Client::named(1, "bob", "r")]);
        o.slots = 2;
        o.styles = 0;
        let mut v = if cx.flag() { vec![] } else { wire::encode(&o.frames()) };
        let mut i = 0;
        while i < n {
            let k = per.min(n - i);
            let mut b = vec![];
            for j in 0..k {
                b.extend(ev(i + j));
            }
            Frame::all(255, b).encode(&mut v);
            i += k;
        }
        Some(v)
    }),
    ("long runs of frames after each event", |cx, deep| {
        let head = cx.choose(11);
        let kind = cx.choose(9);
        let ns: &[usize] = if deep { &[1000, 66_000, 1_000_000, 4_000_000] } else { &[1000, 66_000, 1_000_000] };
        let n = *cx.pick(ns);
        let mut o = Opening::with(vec![Client::named(0, "ann", "r"), Client::named(1, "bob", "r")]);
        o.slots = 2;
        o.styles = 0;
        if head == 10 {
            o.serverinfo = b"\\map\\dm2\\mode\\hoonymode".to_vec();
        }
        let mut v = if head == 0 { vec![] } else { wire::encode(&o.frames()) };
        let t = |s: &str| Frame::all(9, msg::print(2, &latin1(s)));
        let f = match head {
            2 => Frame::all(9, msg::print(1, b"bob was telefragged by his teammate\n")),
            3 => Frame::all(9, msg::print(1, b"bob was nailed by ann\n")),
            4 => t("ann"),
            5 => t("ann defends the ÒÅÄ flag\n"),
            6 => t("matchdate: 2024-11-18 21:35:06 CET\n"),
            7 => t("The match is over\n"),
            8 => Frame::hidden(9, 3, 1, b"{\"version\": 3, \"duration\": 4, "),
            9 => Frame::all(9, [msg::ping(0, 30, 0), msg::ping(1, 50, 0)].concat()),
            _ => Frame::all(9, vec![]),
        };
        f.encode(&mut v);
        let run = match kind {
            0 => Frame::all(1, vec![]),
            1 => Frame::to(1, 1, 0, vec![]),
            2 => Frame::to(0, 4, 1, vec![]),
            3 => Frame::to(1, 5, 31, vec![]),
            4 => Frame::to(1, 7, 0, vec![]),
            5 => Frame { ms: 1, body: Body::Set(1, 1) },
            6 => Frame::hidden_raw(1, vec![]),
            7 => Frame::hidden(1, 3, 1, b""),
            _ => Frame::all(1, msg::print(2, b"")),
        };
        let mut one = vec![];
        run.encode(&mut one);
        v.reserve(one.len() * n);
        for _ in 0..n {
            v.extend_from_slice(&one);
        }
        if cx.flag() {
            Frame::all(1, [msg::frags(0, -1), msg::print(2, b"bob")].concat()).encode(&mut v);
        }
        Some(v)
    }),
    ("the openings of real recordings, cut and damaged", |cx, deep| {
        let r = openings();
        if r.is_empty() {
            return None;
        }
        let d = &r[cx.choose(r.len())];
        match cx.choose(2) {
            0 => {
                let from = cx.choose(if deep { 1500 } else { 400 });
                let i = from * (if deep { 5 } else { 19 });
                if i > d.len() {
                    return None;
                }
                Some(d[..i].to_vec())
            }
            _ => {
                let i = cx.choose(if deep { 2500 } else { 300 }) * (if deep { 3 } else { 23 });
                if i >= d.len() {
                    return None;
                }
                let mut v = d.clone();
                v[i] = *cx.pick(&[0u8, 0xff, b'\\', b'"']);
                Some(v)
            }
        }
    }),
];

fn openings() -> &'static Vec<Vec<u8>> {
    static R: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    R.get_or_init(|| real::demos().into_iter().map(|(_, d)| d[..d.len().min(7600)].to_vec()).collect())
}

pub fn scenarios(deep_gens: &'static [&'static str], skip: &'static [&'static str], t: Tier, f: fn(&mut Ctx, &[u8]) -> Verdict) -> Vec<Scenario> {
    GENS.iter()
        .filter(|(n, _)| t == Tier::Thorough || !skip.contains(n))
        .map(|(n, g)| {
            scenario(n, (0, 0), move |cx| {
                let deep = !cx.quick() && (deep_gens.is_empty() || deep_gens.contains(n));
                let Some(d) = g(cx, deep) else { return Ok(()) };
                cx.input(&d);
                cx.note(|| format!("{} bytes: {}", d.len(), clip(format!("{:?}", String::from_utf8_lossy(&d[..d.len().min(200)])))));
                cx.nontrivial(&d);
                f(cx, &d)
            })
        })
        .collect()
}

// --- C01 -------------------------------------------------------------------------------------

fn survive(cx: &mut Ctx, d: &[u8]) -> Verdict {
    let mut ok = 0u64;
    for (i, f) in CALLS.iter().enumerate() {
        api(FUNCS[i].0, || f(d))?;
        ok += 1;
    }
    cx.count("calls", ok);
    cx.compared();
    Ok(())
}

pub fn c01(t: Tier) -> Prop {
    prop(scenarios(&[], &[], t, survive)).faults(
        "inputs are generated exhaustively within each scenario: all short strings over the bytes the readers tell apart, all token strings up to the depth, \
         every byte of each compact recording replaced, every length field, kind and mask set to every boundary value, every cut, every piece removed or repeated, \
         every combination of obituary and flag texts, attributes, report values and dates, and long runs of one event; each input goes to all 40 public functions, \
         built with overflow checks; distinct_nontrivial counts distinct inputs",
    ).assume(&["a call that lasts 20 s on these inputs (the longest takes well under one) is taken for a hang", "arithmetic overflow is observed by building with overflow checks"])
}

// --- C02 -------------------------------------------------------------------------------------

/// everything that a cut must not change, of the complete frames in front of it
fn check_cut(cx: &mut Ctx, full: &[u8], cut: usize, roster: &Option<Vec<super::roster::C>>, report: &Option<String>, model: bool) -> Verdict {
    let d = &full[..cut];
    let frames = wire::decode(d);
    let whole = wire::encode(&frames);
    cx.input(d);
    cx.note(|| format!("cut at byte {cut} of {}, {} complete frames ({} bytes)", full.len(), frames.len(), whole.len()));
    cx.nontrivial(d);
    use super::history::*;
    let prints = real_prints(d)?;
    let frags = real_frags(d)?;
    let flags = real_flags(d)?;
    let pings = real_pings(d)?;
    let demo = api("demo_duration", || mvdparser::demo_duration(d).ok())?.map(ms_of);
    cx.compared();
    if model {
        let evs: Vec<Ev> = frames.iter().map(abstract_frame).collect();
        let mut mp = Prints::default();
        let mut mi = Pings::default();
        for e in &evs {
            mp.step(e);
            mi.step(e);
        }
        same("prints of the cut recording", &prints, &mp.list)?;
        same("pings of the cut recording", &pings, &mi.result())?;
        // a landmark in the frame that is cut short: up to the earlier one, or all that there is
        let all: u64 = frames.iter().map(|f| f.ms as u64).sum();
        if demo != Some(all) || !tail_landmark(&d[whole.len()..]) {
            same("demo duration of the cut recording (ms)", &demo, &Some(demo_ms(&frames)))?;
        }
    }
    same("prints (cut against its complete frames)", &prints, &real_prints(&whole)?)?;
    same("frags (cut against its complete frames)", &frags, &real_frags(&whole)?)?;
    same("flags (cut against its complete frames)", &flags, &real_flags(&whole)?)?;
    same("pings (cut against its complete frames)", &pings, &real_pings(&whole)?)?;
    let dw = api("demo_duration", || mvdparser::demo_duration(&whole).ok())?.map(ms_of);
    if !tail_landmark(&d[whole.len()..]) {
        same("demo duration (cut against its complete frames)", &demo, &dw)?;
    }
    // roster: a leading part of the full one
    let got = super::roster::real_clients(d)?;
    let full_roster = roster.clone().unwrap_or_default();
    if let Some(g) = &got {
        if g.len() > full_roster.len() || *g != full_roster[..g.len()] {
            return bad(format!("clients of the cut recording: {g:?} is not a leading part of {full_roster:?}"));
        }
    }
    // the report is there completely or not at all
    let rep = api("ktxstats_string", || mvdparser::ktxstats_string(d).ok())?;
    if rep.is_some() && rep != *report {
        return bad(format!("stats report of the cut recording: {:?}, a part of {:?}", clip(format!("{rep:?}")), clip(format!("{report:?}"))));
    }
    cx.outcome(&(prints.len(), demo, got.map(|g| g.len()), rep.is_some()));
    Ok(())
}

fn tail_landmark(tail: &[u8]) -> bool {
    [&b"The match is over"[..], b"4status\0Standby\0"].iter().any(|n| tail.windows(n.len()).any(|w| w == *n))
}

fn demo_ms(frames: &[Frame]) -> u64 {
    let mut t = Time::default();
    for f in frames {
        let has = |n: &[u8]| f.messages().is_some_and(|b| b.windows(n.len()).any(|w| w == n));
        let mut m = vec![];
        if has(b"The match is over") {
            m.push(Mark::Over);
        }
        if has(b"4status\0Standby\0") {
            m.push(Mark::Standby);
        }
        t.step(f.ms, &m);
    }
    t.demo()
}

pub fn c02(t: Tier) -> Prop {
    let compact_cuts = scenario("every cut of compact recordings", (0, 0), |cx| {
        let w = cx.choose(3);
        let full = compact_bytes(w);
        let cut = cx.choose(full.len() + 1);
        let roster = super::roster::real_clients(full)?;
        let report = api("ktxstats_string", || mvdparser::ktxstats_string(full).ok())?;
        check_cut(cx, full, cut, &roster, &report, true)
    });
    let histories = scenario("every cut of short histories", (0, 0), |cx| {
        // histories of a few frames of every kind, each cut everywhere
        let n = cx.by(3, 4);
        let mut v = wire::encode(&{
            let mut o = Opening::with(vec![Client::named(0, "ann", "red"), Client::named(1, "bob", "red")]);
            o.slots = 2;
            o.styles = 0;
            o.frames()
        });
        let start = v.len();
        for i in 0..n {
            let e = match cx.choose(10) {
                0 => Frame::all(7, [msg::print(2, b"a\n"), msg::print(3, b"b\n")].concat()),
                1 => Frame::to(7, 4, 1, msg::print(1, b"ann was nailed by bob\n")),
                2 => Frame::all(7, [msg::print(2, b"ann"), msg::print(2, &latin1(" çïô the ÒÅÄ flag!\n"))].concat()),
                3 => Frame::all(7, [msg::ping(0, 30, 0), msg::ping(1, 50, 0)].concat()),
                4 => Frame::all(9, msg::print(2, b"The match is over\n")),
                5 => Frame::all(9, msg::serverinfo(b"status", b"Standby")),
                6 => Frame::to(5, 3, 1, msg::print(1, b"bob was telefragged by his teammate\n")),
                7 => Frame::all(3, msg::frags(0, -1)),
                8 => Frame::hidden(2, 7, 0, &msg::print(2, b"x\n")),
                _ => Frame { ms: 3, body: Body::Set(0x0041_0208, i as u32) },
            };
            e.encode(&mut v);
        }
        let cut = start + cx.choose(v.len() - start + 1);
        let roster = super::roster::real_clients(&v)?;
        check_cut(cx, &v, cut, &roster, &None, true)
    });
    let rosters = scenario("every cut in the roster", (0, 0), |cx| {
        let mask = 1 + cx.choose(cx.by(7, 31));
        let shape = cx.choose(3);
        let mut o = Opening { slots: 6, styles: 1, ..Default::default() };
        for s in 0..5u8 {
            if mask & (1 << s) != 0 {
                let i = match shape {
                    0 => format!("\\name\\p{s}\\team\\red"),
                    1 => format!("\\*spectator\\1\\name\\p{s}"),
                    _ => format!("\\topcolor\\4\\name\\p{s}\\*auth\\l{s}"),
                };
                o.clients.push(Client::new(s, &latin1(&i)));
            }
        }
        o.frame_size = *cx.pick(&[700usize, 40]);
        let v = wire::encode(&o.frames());
        let from = v.windows(9).position(|w| w == b"cmd spawn").unwrap();
        let cut = from + cx.choose(v.len() - from + 1);
        let roster = super::roster::real_clients(&v)?;
        check_cut(cx, &v, cut, &roster, &None, false)
    });
    let reports = scenario("every cut in the stats report", (0, 0), |cx| {
        let mut f = compact(0);
        let cuts: &[usize] = *cx.pick(&[&[][..], &[60][..], &[30, 31][..], &[50, 100, 150][..]]);
        f.extend(wire::report_frames(REPORT.as_bytes(), cuts));
        f.push(wire::end_of_demo());
        let v = wire::encode(&f);
        let from = v.windows(11).position(|w| w == b"{\"version\":").unwrap() - 30;
        let cut = from + cx.choose(v.len() - from + 1);
        check_cut(cx, &v, cut, &super::roster::real_clients(&v)?, &Some(REPORT.to_string()), true)
    });
    let whole = scenario("reports that look whole where they are cut", (0, 0), |cx| {
        // a block may end behind any character, and the recording behind any block
        const DOCS: [&str; 3] = [
            "{\"version\": 3, \"a\": {\n}\n, \"duration\": 5, \"b\": [1, 2]\n}\n",
            "{\"version\": 3, \"duration\": 5, \"players\": [{\"a\": {}}, {\"b\": []}]}\n\n",
            "{\"version\": 3}\n{\"duration\": 5, }}\n}\n",
        ];
        let doc = *cx.pick(&DOCS);
        let a = 12 + cx.choose(doc.len() - 12);
        let b = a + cx.choose(doc.len() - a);
        let base = cx.flag();
        let mut f = if base { compact(0) } else { vec![] };
        let cuts = if b > a { vec![a, b] } else { vec![a] };
        let start = wire::encode(&f).len();
        let blocks = wire::report_frames(doc.as_bytes(), &cuts);
        let ends: Vec<usize> = blocks.iter().scan(start, |n, f| { *n += f.len(); Some(*n) }).collect();
        f.extend(blocks);
        f.push(wire::end_of_demo());
        let v = wire::encode(&f);
        // two blocks: everywhere; three: around the end of each block
        let cut = if b > a && cx.quick() { ends[cx.choose(ends.len())] + cx.choose(3) - 1 } else { start + cx.choose(v.len() - start + 1) };
        check_cut(cx, &v, cut, &super::roster::real_clients(&v)?, &Some(doc.to_string()), true)
    });
    let big = scenario("cuts in large frames", (0, 0), |cx| {
        let n = *cx.pick(&[255usize, 256, 1023, 65535, 65536, 70000]);
        let mut f = vec![Frame::all(5, msg::print(2, b"first\n"))];
        let mut b = msg::print(2, b"in the large frame\n");
        b.extend(vec![1; n]);
        f.push(Frame::all(7, b));
        f.push(Frame::all(9, msg::print(2, b"last\n")));
        let v = wire::encode(&f);
        let cut = *cx.pick(&[0usize, 1, 2, 6, 13, 14, 15, 16, 19, 20, 30, 40, n / 2, n, v.len() - 13, v.len() - 12, v.len() - 1, v.len()]);
        check_cut(cx, &v, cut.min(v.len()), &None, &None, true)
    });
    let real_cuts = scenario("cuts of real recordings", (0, 0), |cx| {
        // every byte of the frames around chosen places of each recording
        let Some((_, d, _)) = demo_choice(cx) else { return Ok(()) };
        let places: &[usize] = if cx.quick() { &[0, 3000] } else { &[0, 2000, 4000, 6000, 20_000, 60_000] };
        let width = cx.by(60usize, 600);
        let p = places[cx.choose(places.len())];
        let cut = (p + cx.choose(width)).min(d.len());
        let head = &d[..d.len().min(100_000)];
        let roster = super::roster::real_clients(head)?;
        check_cut(cx, d, cut, &roster, &None, false)
    });
    let real_ends = scenario("the ends of real recordings", (0, 0), |cx| {
        // cuts in the last frames, and in and around the stats report
        let Some((_, d, _)) = demo_choice(cx) else { return Ok(()) };
        if cx.quick() && d.len() > 1_000_000 {
            return Ok(());
        }
        let at = match d.windows(12).rposition(|w| w == b"{\"version\": ") {
            Some(p) if cx.flag() => p - 20 + cx.choose(cx.by(2, 12)) * 3,
            _ => d.len() - cx.choose(cx.by(3, 20)),
        };
        let report = api("ktxstats_string", || mvdparser::ktxstats_string(d).ok())?;
        let roster = super::roster::real_clients(d)?;
        check_cut(cx, d, at.min(d.len()), &roster, &report, false)
    });
    let _ = t;
    prop(vec![compact_cuts, histories, rosters, reports, whole, big, real_cuts, real_ends]).faults(
        "every byte position of every history in the bound is a crash point; distinct_nontrivial counts distinct truncated recordings",
    )
}

// --- C23 -------------------------------------------------------------------------------------

/// (constant, per byte)
fn bound(name: &str) -> (usize, usize) {
    match name {
        // a report player of two bytes is a record of two kilobytes
        "ktxstats_v3" | "players" | "players_from_ktxstats" | "server" | "teams" | "teams_from_ktxstats" | "teams_from_players" | "has_bot_players"
        | "match_duration" | "match_duration_from_ktxstats" => (64 << 10, 2048),
        _ => (64 << 10, 512),
    }
}

fn frugal(cx: &mut Ctx, d: &[u8]) -> Verdict {
    for (i, f) in CALLS.iter().enumerate() {
        let r = guard::measured(|| f(d));
        if let Err(p) = r.value {
            return bad(format!("{} panicked: {p}", FUNCS[i].0));
        }
        let (a, b) = bound(FUNCS[i].0);
        if r.peak > a + b * d.len() {
            return bad(format!("{} holds {} bytes at its peak on an input of {} bytes (bound {a} + {b} per byte)", FUNCS[i].0, r.peak, d.len()));
        }
        if std::env::var_os("MC_PEAKS").is_some() {
            eprintln!("PEAK {} {} {}", FUNCS[i].0, d.len(), r.peak);
        }
        cx.outcome(&(i, r.peak.next_power_of_two()));
    }
    cx.count("calls", CALLS.len() as u64);
    cx.compared();
    Ok(())
}

pub fn c23(t: Tier) -> Prop {
    let mut s = scenarios(&["length fields, kinds and masks", "many events of one kind", "values in the stats report"], &["texts of frag prints", "texts of flag prints", "pieces removed, repeated and inserted"], t, frugal);
    s.push(scenario("numbers stated in the input", (0, 0), |cx| {
        // every 4-byte (and 2-byte) field of the compact recordings overwritten with large values
        let d = compact_bytes(cx.choose(3));
        let i = cx.choose(d.len() - 4);
        let v = *cx.pick(&[0x00ff_ffffu32, 0x0fff_ffff, 0x7fff_ffff, 0xffff_ffff]);
        let mut x = d.to_vec();
        if cx.flag() {
            x[i..i + 4].copy_from_slice(&v.to_le_bytes());
        } else {
            // as text
            let t = format!("{v}");
            x = splice(d, i, 0, t.as_bytes());
        }
        cx.input(&x);
        cx.nontrivial(&x);
        frugal(cx, &x)
    }));
    s.push(scenario("what stays held", (0, 0), |cx| {
        // one function, many recordings: what it holds when it has returned must not add up
        let i = cx.choose(CALLS.len());
        let kind = cx.choose(6);
        let n = cx.by(3000, 30_000);
        let mut held = 0isize;
        let mut early = isize::MAX / 2;
        let mut d = compact_bytes(kind % 3).to_vec();
        cx.nontrivial(&[i as u8, kind as u8]);
        for k in 0..n {
            if kind > 3 {
                // texts that mean nothing or are in error
                let x = format!("{k:024}");
                let mut o = Opening::with(vec![Client::new(0, format!("\\{x}\\{x}\\name\\a\\topcolor\\{x}\\*auth\\l{x}\\*flag\\f{x}\\*client\\c{x}").as_bytes()), Client::new(1, format!("\\team\\{x}\\name\\b{x}\\*spectator\\1").as_bytes())]);
                o.slots = 2;
                o.styles = 0;
                o.serverinfo = format!("\\k{x}\\v\\epoch\\{x}\\map\\m{x}\\maxfps\\{x}x\\hostname\\h{x}\\status\\{x}").into_bytes();
                let mut f = o.frames();
                let level = (k % 4) as u8;
                f.push(Frame::all(1, [msg::print(level, format!("a{x} tripped over b{x}\n").as_bytes()), msg::print(level, &latin1(&format!("a{x} drops the ÒÅÄ flag!\n")))].concat()));
                f.push(Frame::all(1, [msg::print(1, format!("v{x} was telefragged by his teammate\n").as_bytes()), msg::frags(k as u8, k as i16)].concat()));
                let zone = if kind == 4 { format!("q{:04}", k % 10_000) } else { format!("{:+05}", k as i32 % 2400 - 1200) };
                let date = if k % 3 == 0 { format!("2024-{:02}-{:02} 21:35:06", k % 90, k % 77) } else { format!("{:04}-11-18 21:35:06", 1000 + k % 8000) };
                f.push(Frame::all(1, msg::print(2, format!("matchdate: {date} {zone}\n").as_bytes())));
                let r = format!("{{\"version\": 3, \"k{x}\": 1, \"hostname\": \"h{x}\", \"ip\": \"i{x}\", \"port\": {k}, \"duration\": {k}.{k}, \"map\": \"m{x}\", \"players\": [{{\"name\": \"n{x}\", \"team\": \"t{x}\", \"login\": \"l{x}\", \"x{x}\": {{}}}}]}}");
                match if kind == 4 { 0 } else { 1 + k % 3 } {
                    0 => f.extend(wire::report_frames(r.as_bytes(), &[70])),
                    1 => f.extend(wire::report_frames(&r.as_bytes()[..r.len() - 1 - k % 40], &[70])),
                    2 => f.extend(wire::report_frames(r.as_bytes(), &[70]).into_iter().take(1)),
                    _ => {}
                }
                d = wire::encode(&f);
            } else if kind == 3 {
                // other names, texts and lengths
                let (n1, m1) = (format!("n{k:024}"), format!("m{k:024}"));
                let mut o = Opening::with(vec![Client::named(0, &n1, &format!("team {k:020}")), Client::named(1, &m1, "t")]);
                o.slots = 2;
                o.styles = 0;
                o.serverinfo = format!("\\mode\\x{k:020}\\serverdemo\\d{k:020}.mvd").into_bytes();
                let mut f = o.frames();
                f.push(Frame::all(1, [msg::print(1, format!("{n1} rides {m1}'s rocket\n").as_bytes()), msg::print(2, format!("text {k:030}").as_bytes())].concat()));
                let w = obits::wording(k % obits::N_WORDINGS, &n1, &m1).0;
                f.push(Frame::all(1, [msg::print(1, format!("{w}\n").as_bytes()), msg::frags((k % 2) as u8, -1), msg::ping(k as u8, k as u16, 0)].concat()));
                f.push(Frame::all(1, msg::print(2, &latin1(&format!("{n1}{}", [" defends the ÒÅÄ flag\n", " çïô the ÒÅÄ flag!\n"][k % 2])))));
                f.push(Frame::all(1, msg::print(2, format!("matchdate: 2024-11-18 21:35:{:02} CET\n", k % 60).as_bytes())));
                f.extend(wire::report_frames(REPORT.replace("ann", &n1).as_bytes(), &[]));
                d = wire::encode(&f);
            } else if k > 0 {
                let at = k % d.len();
                d[at] = d[at].wrapping_add(1 + (k / d.len()) as u8);
            }
            cx.input(&d);
            let r = guard::measured(|| CALLS[i](&d));
            if let Err(p) = r.value {
                return bad(format!("{} panicked: {p}", FUNCS[i].0));
            }
            held += r.left;
            if k == 500 {
                early = held; // tables and buffers that are set up once
            }
            if held > 64 << 10 || held - early > 4 << 10 {
                return bad(format!("{} still holds {held} bytes after {} calls whose results are gone", FUNCS[i].0, k + 1));
            }
        }
        cx.count("calls", n as u64);
        cx.compared();
        Ok(())
    }));
    s.push(scenario("growing inputs", (0, 0), |cx| {
        // the most memory per byte that input can ask for
        let n = *cx.pick(&[1usize, 10, 100, 1000, 10_000, 60_000]);
        let kind = cx.choose(7);
        let mut f = vec![];
        match kind {
            0 => f.extend((0..n).map(|i| Frame::all(0, vec![8, (i % 2) as u8 + 1, b'a' + (i % 26) as u8, 0]))),
            1 => f.push(Frame::all(0, (0..n).flat_map(|i| vec![8, 2, b'a' + (i % 26) as u8, 0]).collect())),
            2 => f.extend(wire::report_frames(format!("{{\"version\": 3, \"players\": [{}]}}", vec!["{}"; n].join(",")).as_bytes(), &[])),
            3 => f.extend(wire::report_frames(format!("{{\"version\": 3, \"players\": [{}]}}", (0..n).map(|i| format!("{{\"team\":\"{i}\"}}")).collect::<Vec<_>>().join(",")).as_bytes(), &[])),
            4 => f.push(Frame::all(0, (0..n).flat_map(|i| msg::print(1, format!("{i} died\n").as_bytes())).collect())),
            5 => f.extend((0..n).map(|i| Frame::all(0, msg::print(2, &latin1(&format!("{i} defends the ÒÅÄ flag\n")))))),
            _ => f.push(Frame::all(0, (0..n).flat_map(|i| msg::ping(i as u8, 1, 1)).collect())),
        }
        let x = wire::encode(&f);
        cx.note(|| format!("kind {kind}, {n} items"));
        cx.input(&x);
        cx.nontrivial(&x);
        frugal(cx, &x)
    }));
    prop(s).faults(
        "as for C01, plus every 4-byte window of each compact recording overwritten with large numbers and inputs that grow; \
         the memory each of the 40 functions holds is counted by the allocator; distinct_nontrivial counts distinct inputs",
    ).assume(&["bound: 64 KiB + 512 per byte, 64 KiB + 2048 per byte for what reads the report's players (2 bytes of JSON make a record of about 2 KB)"])
}

// --- C24 -------------------------------------------------------------------------------------

fn agree(cx: &mut Ctx, d: &[u8]) -> Verdict {
    use super::roster::C;
    use mvdparser::all as m;
    let eq = |what: &str, a: &str, b: &str| -> Verdict {
        if a == b { Ok(()) } else { bad(format!("{what}: {} against {}", clip(a.to_string()), clip(b.to_string()))) }
    };
    let clients = super::roster::real_clients(d)?; // also checks players and spectators against clients
    let s = |f: &str| -> Result<String, Fail> {
        let i = super::observe::index(f);
        let r = api(FUNCS[i].0, || FUNCS[i].1(d))?;
        Ok(if r.starts_with("Err(") { "Err".to_string() } else { r })
    };
    // info strings, client info and clients
    let strings = api("clientinfo_strings", || m::clientinfo_strings(d).ok())?;
    let infos = api("clientinfo", || m::clientinfo(d).ok())?;
    let from_strings = strings.as_ref().map(|v| v.iter().map(|x| format!("{:?}", m::Clientinfo::from(x.as_str()))).collect::<Vec<_>>());
    let from_infos = infos.as_ref().map(|v| v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>());
    same("client info against the info strings", &from_infos, &from_strings)?;
    let key = |c: &C| (c.name.clone(), c.team.clone(), c.color, c.spectator, c.bot, c.auth.clone(), c.cc.clone());
    let of_info = infos.as_ref().map(|v| v.iter().map(|i| {
        let c = mvdparser::Client::from(i);
        (c.name, c.team, c.color, c.is_spectator, c.is_bot, c.auth_username, c.auth_cc)
    }).collect::<Vec<_>>());
    same("clients against client info", &clients.as_ref().map(|v| v.iter().map(key).collect::<Vec<_>>()), &of_info)?;
    // names and teams
    let names = |sp: bool| clients.as_ref().map(|v| v.iter().filter(|c| c.spectator == sp).map(|c| c.name.clone()).collect::<Vec<_>>());
    let pn = api("player_names", || m::player_names(d).ok())?;
    let sn = api("spectator_names", || m::spectator_names(d).ok())?;
    for (what, got, want) in [("player names", &pn, names(false)), ("spectator names", &sn, names(true))] {
        match (got, &want) {
            (None, None) => {}
            (Some(g), Some(w)) if crate::text::sorted_permutation(g, w) => {}
            _ => return bad(format!("{what}: {got:?} against the clients' {want:?}")),
        }
    }
    let tn = api("team_names", || m::team_names(d).ok())?;
    let want_teams = clients.as_ref().map(|v| {
        let mut t: Vec<String> = v.iter().filter(|c| !c.spectator).map(|c| c.team.clone()).collect();
        t.sort();
        t.dedup();
        t
    });
    match (&tn, &want_teams) {
        (None, None) => {}
        (Some(g), Some(w)) if crate::text::sorted_permutation(g, w) => {}
        _ => return bad(format!("team names: {tn:?} against the clients' {want_teams:?}")),
    }
    // stats report or parsing
    let stats = api("ktxstats_v3", || m::ktxstats_v3(d).ok())?;
    let text = api("ktxstats_string", || m::ktxstats_string(d).ok())?;
    if stats.is_some() && text.is_none() {
        return bad("a report without its text");
    }
    let humans = api("has_human_players", || m::has_human_players(d).ok())?;
    let bots = api("has_bot_players", || m::has_bot_players(d).ok())?;
    same("has human players", &humans, &clients.as_ref().map(|v| v.iter().any(|c| !c.spectator && !c.bot)))?;
    let report_bots = stats.as_ref().is_some_and(|s| s.players.iter().any(|p| p.bot.is_some()))
        && text.as_ref().is_some_and(|t| t.contains("\"bot\": {"));
    // a damaged recording may hold the remains of a report
    let mentioned = d.windows(5).any(|w| w == b"\"bot\"");
    let client_bots = clients.as_ref().map(|v| v.iter().any(|c| !c.spectator && c.bot));
    match (bots, client_bots) {
        (None, None) => {}
        (Some(true), Some(c)) if c || mentioned => {}
        (Some(false), Some(false)) if !report_bots => {}
        x => return bad(format!("has bot players: {:?}, clients say {:?}, report says {report_bots}", x.0, x.1)),
    }
    let players = s("players")?;
    let by_report = s("players_from_ktxstats")?;
    let by_parsing = s("players_from_parsing")?;
    eq("players against their source", &players, if stats.is_some() { &by_report } else { &by_parsing })?;
    let teams = s("teams")?;
    eq("teams against the players'", &teams, &s("teams_from_players")?)?;
    if stats.is_some() {
        eq("teams against the report's", &teams, &s("teams_from_ktxstats")?)?;
    }
    // players by parsing against clients, frags and pings
    let pp = api("players_from_parsing", || m::players_from_parsing(d).ok())?;
    let frags: HashMap<String, i32> = api("frags_per_player_name", || m::frags_per_player_name(d))?;
    let pings = super::history::real_pings(d)?;
    let pings: BTreeMap<u8, u32> = pings.unwrap_or_default();
    if pp.is_some() != clients.is_some() {
        return bad(format!("players by parsing are {} while clients are {}", if pp.is_some() { "there" } else { "an error" }, if clients.is_some() { "there" } else { "an error" }));
    }
    if let (Some(pp), Some(cl)) = (&pp, &clients) {
        // a slot that damaged data names twice has one player, whichever
        let twice = |n: u8| cl.iter().filter(|c| !c.spectator && c.number == n).count() > 1;
        let unclear: Vec<&String> = cl.iter().filter(|c| twice(c.number)).map(|c| &c.name).collect();
        let mut want: Vec<P> = cl.iter().filter(|c| !c.spectator && !unclear.contains(&&c.name)).map(|c| P {
            name: c.name.clone(),
            team: c.team.clone(),
            color: c.color,
            frags: frags.get(&c.name).copied().unwrap_or(0),
            ping: pings.get(&c.number).copied().unwrap_or(0),
            is_bot: c.bot,
            auth_username: c.auth.clone(),
            auth_cc: c.cc.clone(),
        }).collect();
        let mut got: Vec<P> = pp.iter().map(P::of).filter(|p| !unclear.contains(&&p.name)).collect();
        want.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}")));
        got.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}")));
        same("players by parsing against clients, frags and pings", &got, &want)?;
    }
    // durations
    let info = api("serverinfo", || m::serverinfo(d).ok())?;
    let info_text = api("serverinfo_string", || m::serverinfo_string(d).ok())?;
    same("settings against their text", &info.is_some(), &info_text.is_some())?;
    let hoony = info.as_ref().is_some_and(|s| s.mode.as_deref() == Some("hoonymode"));
    let demo = api("demo_duration", || mvdparser::demo_duration(d).ok())?;
    let count = api("countdown_duration", || mvdparser::countdown_duration(d).ok())?;
    let seek = api("match_duration_from_seeking", || m::match_duration_from_seeking(d).ok())?;
    let kt = api("match_duration_from_ktxstats", || m::match_duration_from_ktxstats(d).ok())?;
    let dur = api("match_duration", || mvdparser::match_duration(d).ok())?;
    if hoony {
        same("countdown in hoonymode", &count, &Some(std::time::Duration::ZERO))?;
        same("match duration in hoonymode", &dur, &demo)?;
    } else {
        same("match duration against its sources", &dur, &kt.or(seek))?;
    }
    same("match duration by seeking", &seek, &demo.map(|x| x.saturating_sub(count.unwrap_or_default())))?;
    // timestamp, server, file name
    let ts = s("timestamp")?;
    let te = s("timestamp_from_epoch")?;
    let md = s("matchdate")?;
    eq("timestamp against its sources", &ts, if te != "Err" { &te } else { &md })?;
    same("epoch", &(te != "Err"), &info.as_ref().is_some_and(|i| i.epoch.is_some()))?;
    if md != "Err" && s("matchdate_string")? == "Err" {
        return bad("a matchdate without its text");
    }
    let srv = api("server", || mvdparser::server(d).ok())?.map(|x| (x.hostname, x.ip, x.port));
    same("server against the report", &srv, &stats.as_ref().map(|s| (s.hostname.clone(), s.ip.clone(), s.port)))?;
    let file = api("filename", || mvdparser::filename(d).ok())?;
    same("file name against the settings", &file, &info.as_ref().and_then(|i| i.serverdemo.clone()))?;
    // verdicts
    let has = api("has_clients", || m::has_clients(d))?;
    let end = api("has_end_of_demo_print", || m::has_end_of_demo_print(d))?;
    same("has clients", &has, &infos.as_ref().is_some_and(|i| !i.is_empty()))?;
    same("valid", &api("is_valid", || m::is_valid(d))?, &(d.len() >= 1024 && end && info.is_some() && has))?;
    if end && api("is_paused", || mvdparser::is_paused(d))? {
        return bad("paused although it ends properly");
    }
    cx.compared();
    cx.outcome(&(clients.map(|c| c.len()), stats.is_some(), dur, ts, end));
    Ok(())
}

pub fn c24(t: Tier) -> Prop {
    let mut s = scenarios(
        &["strings of tokens", "length fields, kinds and masks", "times and landmarks in any order", "texts of frag prints"],
        &["texts of flag prints"],
        t,
        agree,
    );
    s.push(scenario("combinations of sources", (0, 0), |cx| {
        // each ingredient there or not, well-formed or not
        let mut frames = vec![];
        let mode = *cx.pick(&[None, Some("2on2"), Some("hoonymode")]);
        let epoch = *cx.pick(&["", "\\epoch\\1716233132", "\\epoch\\x"]);
        let file = cx.flag();
        if let Some(m) = mode {
            frames.push(Frame::all(0, msg::stufftext(format!("fullserverinfo \"\\mode\\{m}{epoch}{}\\map\\x\"\n", if file { "\\serverdemo\\f.mvd" } else { "" }).as_bytes())));
        }
        let roster = cx.choose(3);
        if roster > 0 {
            frames.push(Frame::all(0, msg::stufftext(b"cmd spawn 1 0\n")));
        }
        if roster > 1 {
            let mut b = vec![];
            for (i, t) in ["\\name\\ann\\team\\red", "\\name\\bot\\*bot\\1\\team\\RED", "\\name\\s\\*spectator\\1"].iter().enumerate() {
                b.extend(msg::userinfo(2 * i as u8, 7, t.as_bytes()));
            }
            frames.push(Frame::all(0, b));
        }
        frames.push(Frame::all(3, msg::ping(0, 40, 0)));
        frames.push(Frame::all(3, msg::print(1, b"ann was nailed by bot\n")));
        match cx.choose(3) {
            0 => {}
            1 => frames.push(Frame::all(100, msg::print(2, b"matchdate: 2024-11-18 21:35:06 CET\n"))),
            _ => frames.push(Frame::all(100, msg::print(2, b"matchdate: yesterday, or the day before\n"))),
        }
        if cx.flag() {
            frames.push(Frame::all(200, msg::print(2, b"The match is over\n")));
        }
        frames.push(Frame::all(9, vec![0; 1000]));
        let rep: Option<&[u8]> = *cx.pick(&[
            None,
            Some(&b"{\"version\": 3, \"duration\": 20, \"players\": [{\"name\": \"ann\", \"team\": \"red\"}, {\"name\": \"z\", \"ping\": 10}]}"[..]),
            Some(b"{\"version\": 3, \"hostname\": \"h\", \"ip\": \"i\", \"port\": 5}"),
            Some(b"{\"version\": 3, broken}"),
            Some(b"{\"version\": 3, \"duration\": 4294967295}"),
        ]);
        if let Some(r) = rep {
            frames.extend(wire::report_frames(r, &[20]));
        }
        if cx.flag() {
            frames.push(wire::end_of_demo());
        }
        let d = wire::encode(&frames);
        cx.input(&d);
        cx.note(|| clip(format!("{frames:?}")));
        cx.nontrivial(&d);
        agree(cx, &d)
    }));
    s.push(scenario("rosters", (0, 0), |cx| {
        let n = cx.choose(cx.by(3, 3)) + 1;
        let mut clients = vec![];
        let slots = [0u8, 3, 4];
        let few = cx.quick() && n == 3;
        for i in 0..n {
            let name = *cx.pick(if few { &["ann", "s"][..] } else { &["ann", "ANN", "", "\u{e1}nn", "spec"] });
            let team = *cx.pick(if few { &["red", ""][..] } else { &["red", "Red", ""] });
            let mut info = format!("\\name\\{name}\\team\\{team}\\topcolor\\{}", 3 + i);
            let spectator = cx.flag();
            if spectator {
                info += "\\*spectator\\1";
            }
            if cx.flag() {
                info += "\\*bot\\1";
            }
            if !few && n < 3 && cx.flag() {
                info += "\\*auth\\a\\*flag\\se";
            }
            clients.push(Client::new(slots[i], &latin1(&info)));
        }
        let mut o = Opening::with(clients);
        o.slots = 5;
        o.styles = 0;
        let mut frames = o.frames();
        let has = cx.choose(4);
        if has & 1 != 0 {
            frames.push(Frame::all(3, [msg::ping(0, 40, 0), msg::ping(3, 50, 0)].concat()));
        }
        if has & 2 != 0 {
            frames.push(Frame::all(3, [msg::print(1, b"spec was nailed by ann\n"), msg::print(1, b"s suicides\n")].concat()));
        }
        let d = wire::encode(&frames);
        cx.input(&d);
        cx.note(|| clip(format!("{frames:?}")));
        cx.nontrivial(&d);
        agree(cx, &d)
    }));
    s.push(scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, _)) = demo_choice(cx) else { return Ok(()) };
        if cx.quick() && d.len() > 3_000_000 {
            return Ok(());
        }
        let d = match cx.choose(3) {
            0 => &d[..],
            1 => &d[..d.len() / 2],
            _ => &d[..d.len() - 1],
        };
        cx.nontrivial(d);
        agree(cx, d)
    }));
    prop(s).faults(
        "as for C01, plus every combination of the ingredients that combined answers are made of and real recordings; \
         distinct_nontrivial counts distinct inputs",
    )
}
