//! C25: the work of a call grows no faster than its input.
use super::observe::{CALLS, FUNCS};
use super::*;
use crate::engine::scenario;
use crate::obits;
use crate::wire::{self, latin1, msg, Body, Client, Frame, Opening};

enum Item {
    /// messages; how many share a frame is up to the layout
    Msgs(Vec<u8>),
    Whole(Frame),
}
use Item::*;

fn p(level: u8, t: &str) -> Item {
    Msgs(msg::print(level, &latin1(t)))
}

/// the i-th piece of each kind
const KINDS: &[(&str, fn(usize) -> Item)] = &[
    ("empty frame", |_| Whole(Frame::all(1, vec![]))),
    ("unnamed team kill", |_| p(1, "ann was telefragged by his teammate\n")),
    ("unnamed team kill of many", |i| p(1, &format!("n{i} was crushed by her teammate\n"))),
    ("kill", |_| p(1, "ann was nailed by bob\n")),
    ("kill of many by many", |i| p(1, &format!("n{i} rides m{}'s rocket\n", i * 7 % 1000))),
    ("death of many", |i| p(1, &format!("n{i} died\n"))),
    ("suicide", |_| p(1, "bob suicides\n")),
    ("no obituary", |i| p(1, &format!("n{i} says hello\n"))),
    ("frags", |i| Msgs(msg::frags((i % 4) as u8, -1))),
    ("pings", |i| Msgs(msg::ping(i as u8, 30, 1))),
    ("name of a flag message", |_| p(2, "ann")),
    ("flag message", |_| p(2, " çïô the ÒÅÄ flag!\n")),
    ("whole flag message", |i| p(2, &format!("n{i} defends the ÒÅÄ flag\n"))),
    ("name and flag message", |i| Msgs([msg::print(2, format!("n{i}").as_bytes()), msg::print(2, &latin1(" çïô the ÒÅÄ flag!\n"))].concat())),
    ("other print", |i| p(2, &format!("text {i}\n"))),
    ("same print", |_| p(3, "hello\n")),
    ("empty print", |_| p(2, "")),
    ("lightstyle", |i| Msgs(msg::lightstyle(i as u8, b"m"))),
    ("userinfo", |i| Msgs(msg::userinfo((i % 32) as u8, 1, format!("\\name\\n{i}").as_bytes()))),
    ("userinfo without name", |i| Msgs(msg::userinfo((i % 32) as u8, 1, b"\\topcolor\\4"))),
    ("serverinfo", |_| Msgs(msg::serverinfo(b"status", b"Countdown"))),
    ("spawn", |_| Msgs(msg::stufftext(b"cmd spawn 1\n"))),
    ("full serverinfo", |_| Msgs(msg::stufftext(b"fullserverinfo \"\\mode\\ffa\"\n"))),
    ("matchdate", |_| p(2, "matchdate: 2024-11-18 21:35:06 CET\n")),
    ("half a matchdate", |_| p(2, "matchdate: 2024-11-18 21:3")),
    ("landmark", |_| p(2, "The match is over\n")),
    ("zeros", |_| Msgs(vec![0; 8])),
    ("0xff", |_| Msgs(vec![0xff; 8])),
    ("half a needle", |_| Msgs(b"\\nam\x08\x02matchdat\x09cmd spaw".to_vec())),
    ("report block", |i| Whole(Frame::hidden(1, 3, i as u16, b"[{},{}],"))),
    ("report", |_| Whole(wire::report_frames(b"{\"version\": 3, \"duration\": 4}", &[]).remove(0))),
    ("other hidden data", |i| Whole(Frame::hidden(1, 7, i as u16, &[7; 9]))),
    ("sequence numbers", |i| Whole(Frame { ms: 0, body: Body::Set(i as u32, i as u32) })),
    ("frame to one", |i| Whole(Frame::to(1, 4, (i % 32) as u8, vec![1]))),
    ("end of demo", |_| Whole(wire::end_of_demo())),
];

fn roster(which: usize) -> Vec<u8> {
    let c = match which {
        0 => return vec![],
        1 => vec![Client::named(0, "ann", "red"), Client::named(1, "bob", "red")],
        _ => (0..32).map(|i| Client::new(i, format!("\\team\\t{}\\name\\n{i}\\*bot\\1", i % 5).as_bytes())).collect(),
    };
    let mut o = Opening::with(c);
    o.slots = if which == 1 { 2 } else { 32 };
    o.styles = 0;
    let mut f = o.frames();
    f.push(Frame::all(1, (0..32).flat_map(|i| msg::ping(i, 30, 0)).collect()));
    wire::encode(&f)
}

/// lays items out: `per` messages to a frame
fn lay(out: &mut Vec<u8>, items: impl Iterator<Item = Item>, per: usize) {
    let mut held: Vec<u8> = vec![];
    let mut n = 0;
    for it in items {
        match it {
            Msgs(m) => {
                held.extend_from_slice(&m);
                n += 1;
                if n == per {
                    Frame::all(9, std::mem::take(&mut held)).encode(out);
                    n = 0;
                }
            }
            Whole(f) => {
                if n > 0 {
                    Frame::all(9, std::mem::take(&mut held)).encode(out);
                    n = 0;
                }
                f.encode(out)
            }
        }
    }
    if n > 0 {
        Frame::all(9, held).encode(out);
    }
}

/// Texts and documents of growing size: name and the whole input for size n.
const TEXTS: &[(&str, fn(usize) -> Vec<u8>)] = &[
    ("report of players of one team", |n| report(n, &|_| "{\"name\": \"a\", \"team\": \"red\", \"ping\": 3}".into())),
    ("report of players without anything", |n| report(n, &|_| "{}".into())),
    ("report of players of many names and teams", |n| report(n, &|i| format!("{{\"name\": \"p{i}\", \"team\": \"t{i}\", \"ping\": {}, \"stats\": {{\"frags\": {}}}}}", i % 300, i * 7 % 50))),
    ("report of players of many names and one team", |n| report(n, &|i| format!("{{\"name\": \"p{}\", \"team\": \"t\", \"ping\": {i}}}", n - i))),
    ("report of players of seventeen teams", |n| report(n, &|i| format!("{{\"name\": \"p{}\", \"team\": \"t{}\"}}", i * 31 % 977, i % 17))),
    ("report in many blocks", |n| {
        let d = format!("{{\"version\": 3, \"x\": \"{}\"}}", "y".repeat(n * 8));
        wire::encode(&wire::report_frames(d.as_bytes(), &(1..n).map(|i| i * 8).collect::<Vec<_>>()))
    }),
    ("reports", |n| [vec![wire::report_frames(REPORT, &[30]); n].concat()].iter().flat_map(|f| wire::encode(f)).collect()),
    ("unfinished reports", |n| (0..n).flat_map(|_| wire::encode(&[Frame::hidden(1, 3, 1, b"{\"version\": 3, ")])).collect()),
    ("unknown keys", |n| doc(&(0..n).map(|i| format!("\"k{i}\": {i}")).collect::<Vec<_>>().join(", "))),
    ("repeated keys", |n| doc(&vec!["\"x\": 1"; n].join(", "))),
    ("nested lists", |n| doc(&format!("\"x\": {}{}", "[".repeat(n), "]".repeat(n)))),
    ("open lists", |n| doc(&format!("\"x\": {}", "[".repeat(n)))),
    ("escapes", |n| doc(&format!("\"hostname\": \"{}\"", "\\u00e9\\n".repeat(n)))),
    ("long number", |n| doc(&format!("\"duration\": {}", "9".repeat(n * 4)))),
    ("blanks in a report", |n| doc(&format!("{}\"duration\": 3", " \n".repeat(n)))),
    ("teams of a report", |n| doc(&format!("\"teams\": [{}]", (0..n).map(|i| format!("\"t{i}\"")).collect::<Vec<_>>().join(",")))),
    ("long hostname", |n| doc(&format!("\"hostname\": \"{}\"", "ab".repeat(n)))),
    ("long serverinfo", |n| opening(&format!("\\mode\\ffa{}", (0..n).map(|i| format!("\\k{i}\\v")).collect::<String>()), vec![])),
    ("serverinfo of one key", |n| opening(&format!("\\mode\\ffa{}", "\\maxfps\\77".repeat(n)), vec![])),
    ("serverinfo of one value", |n| opening(&format!("\\mode\\{}", "x".repeat(n * 4)), vec![])),
    ("serverinfo of quotes", |n| opening(&"\\\"".repeat(n), vec![])),
    ("serverinfo without end", |n| format!("fullserverinfo \"{}", "\\k\\v".repeat(n)).into_bytes()),
    ("serverinfos without end", |n| "fullserverinfo \"\\mode\\x".repeat(n).into_bytes()),
    ("names", |n| b"\\name\\ann\0".repeat(n)),
    ("names behind spawn", |n| [&b"\x09cmd spawn 1 0\0"[..], &b"\x28\x05\x00\x00\x00\x00\\name\\ann\0".repeat(n)].concat()),
    ("names behind spawn, no end", |n| [&b"\x09cmd spawn 1 0\0"[..], &b"\\name\\a".repeat(n)].concat()),
    ("backslashes behind spawn", |n| [&b"\x09cmd spawn 1 0\0"[..], &b"\\".repeat(n * 4)].concat()),
    ("zeros", |n| vec![0; n * 4]),
    ("0xff", |n| vec![0xff; n * 4]),
    ("backslashes", |n| vec![b'\\'; n * 4]),
    ("quotes", |n| vec![b'"'; n * 4]),
    ("prints without end", |n| b"\x08\x01".repeat(n)),
    ("one print", |n| wire::encode(&[Frame::all(1, msg::print(1, &b"x".repeat(n * 4)))])),
    ("one obituary", |n| wire::encode(&[Frame::all(1, msg::print(1, format!("{} was nailed by {}\n", "v".repeat(n), "k".repeat(n)).as_bytes()))])),
    ("one obituary of many", |n| wire::encode(&[Frame::all(1, msg::print(1, format!("{}\n", "a was nailed by b ".repeat(n)).as_bytes()))])),
    ("one obituary of lines", |n| wire::encode(&[Frame::all(1, msg::print(1, "a was nailed by b\n".repeat(n).as_bytes()))])),
    ("one text of every ending", |n| wire::encode(&[Frame::all(1, msg::print(1, "'s rocket's grenade".repeat(n).as_bytes()))])),
    ("one flag message", |n| wire::encode(&[Frame::all(1, msg::print(2, &latin1(&format!("{} defends the ÒÅÄ flag\n", "v".repeat(n)))))])),
    ("one flag message of many", |n| wire::encode(&[Frame::all(1, msg::print(2, &latin1(&" defends the ÒÅÄ flag".repeat(n))))])),
    ("a long name and a flag message", |n| wire::encode(&[Frame::all(1, [msg::print(2, &b"v".repeat(n * 4)), msg::print(2, &latin1(" çïô the ÒÅÄ flag!\n"))].concat())])),
    ("matchdate without end", |n| wire::encode(&[Frame::all(1, msg::print(2, format!("matchdate: {}", "2024".repeat(n)).as_bytes()))])),
    ("long zone", |n| wire::encode(&[Frame::all(1, msg::print(2, format!("matchdate: 2024-11-18 21:35:06 {}\n", "CET ".repeat(n)).as_bytes()))])),
    ("latin letters", |n| wire::encode(&[Frame::all(1, msg::print(1, &vec![0xe9; n * 4]))])),
    ("many clients of one slot", |n| opening("\\mode\\x", (0..n).map(|i| Client::named(1, &format!("n{i}"), "t")).collect())),
    ("many clients", |n| opening("\\mode\\x", (0..n).map(|i| Client::named(i as u8, &format!("n{i}"), &format!("t{i}"))).collect())),
    ("many pairs of one client", |n| opening("\\mode\\x", vec![Client::new(1, format!("\\name\\a{}", "\\k\\v".repeat(n)).as_bytes())])),
    ("bytes that count up", |n| (0..n * 4).map(|i| i as u8).collect()),
    ("small frames of every kind", |n| (0..n).flat_map(|i| [i as u8 & 1, i as u8, 0, 0, 0, 0]).collect()),
];
const REPORT: &[u8] = b"{\"version\": 3, \"players\": [{\"name\": \"a\", \"team\": \"t\"}]}";

fn doc(inner: &str) -> Vec<u8> {
    wire::encode(&wire::report_frames(format!("{{\"version\": 3, {inner}}}").as_bytes(), &[]))
}
fn report(n: usize, player: &dyn Fn(usize) -> String) -> Vec<u8> {
    doc(&format!("\"players\": [{}]", (0..n).map(player).collect::<Vec<_>>().join(",")))
}
fn opening(serverinfo: &str, clients: Vec<Client>) -> Vec<u8> {
    let mut o = Opening::with(clients);
    o.slots = 0;
    o.styles = 0;
    o.serverinfo = serverinfo.as_bytes().to_vec();
    wire::encode(&o.frames())
}

fn effort(d: &[u8], i: usize) -> Result<u64, Fail> {
    let r = guard::measured(|| CALLS[i](d));
    match r.value {
        Ok(()) => Ok(r.work),
        Err(p) => bad(format!("{} panicked: {p}", FUNCS[i].0)),
    }
}

/// sixteen times the input, at most three times sixteen times the work
fn proportional(cx: &mut Ctx, what: &str, make: &dyn Fn(usize) -> Vec<u8>, n: usize) -> Verdict {
    const BY: usize = 16;
    let (o, a, b) = (make(0), make(n), make(n * BY));
    cx.note(|| format!("{what}: {n} ({} bytes) and {} ({} bytes)", a.len(), n * BY, b.len()));
    cx.input(&b);
    cx.nontrivial(&b);
    // what grows, without what is there anyway
    let by = (b.len() - o.len()) as f64 / (a.len() - o.len()) as f64;
    for i in 0..CALLS.len() {
        let (wo, wa, wb) = (effort(&o, i)?, effort(&a, i)?, effort(&b, i)?);
        let (wa, wb) = if wo <= wa { (wa - wo, wb.saturating_sub(wo)) } else { (wa, wb) };
        if std::env::var_os("MC_EFFORT").is_some() {
            eprintln!("EFFORT {:.2} {:.1} {} {what}", wb as f64 / (wa.max(1) as f64 * by), wb as f64 / b.len() as f64, FUNCS[i].0);
        }
        if wb > CAP.0 + CAP.1 * b.len() as u64 {
            return bad(format!("{}: {what}: {wb} steps on an input of {} bytes (bound {} + {} per byte)", FUNCS[i].0, b.len(), CAP.0, CAP.1));
        }
        // (searching for texts costs less than two steps per byte, and unevenly many)
        if wb as f64 > 3.0 * by * (wa as f64 + 1000.0) && wb > 2 * (b.len() - o.len()) as u64 {
            return bad(format!(
                "{}: {what}: the work grows by {wa} on {} bytes and by {wb} on {} bytes: {:.1} times the work for {by:.1} times the input",
                FUNCS[i].0, a.len() - o.len(), b.len() - o.len(), wb as f64 / wa.max(1) as f64
            ));
        }
        cx.outcome(&(i, wb.next_power_of_two()));
    }
    cx.count("calls", 3 * CALLS.len() as u64);
    cx.compared();
    Ok(())
}

/// work that any input may cost: constant and per byte
const CAP: (u64, u64) = (200_000, 1000);

pub fn bounded(cx: &mut Ctx, d: &[u8]) -> Verdict {
    for i in 0..CALLS.len() {
        let w = effort(d, i)?;
        if std::env::var_os("MC_EFFORT").is_some() {
            eprintln!("CAP {:.1} {w} {} {}", w as f64 / (d.len() + 200) as f64, FUNCS[i].0, d.len());
        }
        if w > CAP.0 + CAP.1 * d.len() as u64 {
            return bad(format!("{} does {w} steps on an input of {} bytes (bound {} + {} per byte)", FUNCS[i].0, d.len(), CAP.0, CAP.1));
        }
        cx.outcome(&(i, w.next_power_of_two()));
    }
    cx.count("calls", CALLS.len() as u64);
    cx.compared();
    Ok(())
}

pub fn c25(t: Tier) -> Prop {
    let mut s = vec![
        scenario("growing runs of one kind of event", (0, 0), |cx| {
            let who = cx.choose(3);
            let k = cx.choose(KINDS.len());
            let per = *cx.pick(&[1usize, 40, usize::MAX]);
            let n = cx.by(1000, 4000);
            let what = format!("{} (roster {who}, {per} to a frame)", KINDS[k].0);
            proportional(cx, &what, &|n| {
                let mut v = roster(who);
                lay(&mut v, (0..n).map(KINDS[k].1), per);
                v
            }, n)
        }),
        scenario("growing texts and documents", (0, 0), |cx| {
            let k = cx.choose(TEXTS.len());
            // before or behind a small recording, or alone
            let place = cx.choose(3);
            let n = *cx.pick(cx.by(&[250usize, 2000][..], &[250usize, 1000, 8000][..]));
            let what = format!("{} (placed {place})", TEXTS[k].0);
            proportional(cx, &what, &|n| {
                let r = super::faults::compact_bytes(0);
                let x = TEXTS[k].1(n);
                match place {
                    0 => x,
                    1 => [r, &x].concat(),
                    _ => [&x, r].concat(),
                }
            }, n)
        }),
        scenario("growing runs of two kinds of events", (0, 0), |cx| {
            let who = cx.choose(3);
            let (a, b) = (cx.choose(KINDS.len()), cx.choose(KINDS.len()));
            let per = *cx.pick(&[1usize, usize::MAX]);
            let turns = cx.flag();
            let n = cx.by(100, 400);
            let what = format!("{} and {} (roster {who}, {per} to a frame, {})", KINDS[a].0, KINDS[b].0, if turns { "by turns" } else { "one after the other" });
            proportional(cx, &what, &|n| {
                let mut v = roster(who);
                if turns {
                    lay(&mut v, (0..n).flat_map(|i| [KINDS[a].1(i), KINDS[b].1(i)]), per);
                } else {
                    lay(&mut v, (0..n).map(KINDS[a].1).chain((0..n).map(KINDS[b].1)), per);
                }
                v
            }, n)
        }),
        scenario("growing obituaries of every wording", (0, 0), |cx| {
            let w = cx.choose(obits::N_WORDINGS);
            let per = *cx.pick(&[1usize, usize::MAX]);
            let who = cx.choose(3);
            let form = cx.choose(3);
            let n = cx.by(500, 2000);
            let what = format!("obituary {w} (roster {who}, {per} to a frame, names {form})");
            proportional(cx, &what, &|n| {
                let mut v = roster(who);
                let item = |i: usize| {
                    let (a, b) = match form {
                        0 => ("ann".to_string(), "bob".to_string()),
                        1 => (format!("n{i}"), format!("m{i}")),
                        _ => (format!("n{}", i % 32), format!("n{}", (i + 1) % 32)),
                    };
                    Msgs([msg::print(1, format!("{}\n", obits::wording(w, &a, &b).0).as_bytes()), msg::frags((i % 32) as u8, 3)].concat())
                };
                lay(&mut v, (0..n).map(item), per);
                v
            }, n)
        }),
        scenario("growing whole recordings", (0, 0), |cx| {
            // a compact recording, one part of it repeated
            let w = cx.choose(3);
            let f = super::faults::compact(w);
            let from = cx.choose(f.len());
            let len = 1 + cx.choose(3);
            if from + len > f.len() {
                return Ok(());
            }
            let n = cx.by(60, 600);
            let what = format!("recording {w} with frames {from}..{} repeated", from + len);
            proportional(cx, &what, &|n| {
                let mut v = wire::encode(&f[..from]);
                for _ in 0..n {
                    for x in &f[from..from + len] {
                        x.encode(&mut v);
                    }
                }
                v.extend(wire::encode(&f[from + len..]));
                v
            }, n)
        }),
    ];
    s.push(scenario("growing texts of one unit", (0, 0), |cx| {
        const WORDS: &[&str] = &[
            "ann", " ", "'s", "'", "\\", "%s", "\r\n", "{", "a b", "matchdate: ", "The match is over\n", " rocket", "was nailed by ", "2024-", "00", "team", "defends", " the ", "ÒÅÄ flag",
            " çïô the ÒÅÄ flag!\n", "fullserverinfo \"", "\\name\\", "\u{8d}\u{8d}", "\u{80}\u{81}", "a\n", "\t ",
        ];
        let u = cx.choose(256 + WORDS.len());
        let unit = if u < 256 { vec![u as u8] } else { latin1(WORDS[u - 256]) };
        let base = *cx.pick(&["ann was nailed by bob\n", "ann was telefragged by his teammate\n", "ann died\n", "ann defends the ÒÅÄ flag\n", "matchdate: 2024-11-18 21:35:06 CET\n"]);
        let base = latin1(base);
        // in front, behind the first word, before the last, at the end with and without the end of the line
        let place = cx.choose(6);
        let at = match place {
            0 => 0,
            1 => 3,
            2 => 4,
            3 => base.iter().rposition(|b| *b == b' ').unwrap() + 1,
            4 => base.len() - 1,
            _ => base.len(),
        };
        let level = 1 + cx.choose(2) as u8;
        let n = cx.by(500, 4000) / unit.len();
        let what = format!("{:?} repeated at {at} of {:?} in a print of level {level}", String::from_utf8_lossy(&unit), String::from_utf8_lossy(&base));
        proportional(cx, &what, &|n| {
            let mut v = roster(1);
            Frame::all(1, msg::print(level, &[&base[..at], &unit.repeat(n), &base[at..]].concat())).encode(&mut v);
            v
        }, n)
    }));
    s.push(scenario("growing values of one unit", (0, 0), |cx| {
        let u = cx.choose(256);
        let place = cx.choose(7);
        let n = cx.by(500, 4000);
        let c = u as u8;
        let what = format!("byte {u:#x} repeated in value {place}");
        proportional(cx, &what, &|n| {
            let run = vec![c; n];
            let end = |pre: &[u8], post: &[u8]| [pre, &run, post].concat();
            let info = |s: &[u8], u: &[u8]| {
                let mut o = Opening::with(vec![Client::new(0, u)]);
                o.slots = 0;
                o.styles = 0;
                o.serverinfo = s.to_vec();
                wire::encode(&o.frames())
            };
            match place {
                0 => info(&end(b"\\mode\\", b"\\map\\dm2"), b"\\name\\ann"),
                1 => info(&end(b"\\mode\\ffa\\serverdemo\\", b"x.mvd"), b"\\name\\ann"),
                2 => info(&end(b"\\maxfps\\7", b"7"), b"\\name\\ann"),
                3 => info(b"\\mode\\ffa", &end(b"\\name\\", b"ann\\team\\red")),
                4 => info(b"\\mode\\ffa", &end(b"\\name\\ann\\team\\", b"")),
                5 => info(b"\\mode\\ffa", &end(b"\\name\\ann\\topcolor\\", b"4")),
                _ => wire::encode(&wire::report_frames(&end(b"{\"version\": 3, \"hostname\": \"", b"\", \"duration\": 3}"), &[])),
            }
        }, n)
    }));
    s.extend(super::faults::scenarios(&["many events of one kind"], &["texts of frag prints", "texts of flag prints", "strings of tokens", "long runs of frames after each event"], t, bounded));
    prop(s).faults(
        "inputs are enumerated exhaustively per scenario: every kind of event, text, document and part of a recording grown sixteenfold in every layout, alone and in pairs, \
         and the damaged inputs of C01; work is counted by instrumentation of every basic block compiled for the library; distinct_nontrivial counts distinct inputs",
    ).assume(&[
        "work is counted in basic blocks of the library, its dependencies and the generic code of the standard library they use, bytes copied, cleared or compared (by 16) and bytes requested (by 64); \
         precompiled loops of the standard library other than these are not counted",
        "proportional: sixteen times the input costs at most three times sixteen times the work, which leaves room for a logarithm and for tables that double",
    ])
}
