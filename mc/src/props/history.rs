//! C03 to C10: histories of frames against event-level models.
use super::*;
use crate::engine::scenario;
use crate::model::*;
use crate::obits;
use crate::real;
use crate::wire::{self, latin1, msg, unlatin1, Client, Frame, Opening};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, OnceLock};
use std::time::Duration;

fn level_of(p: &str) -> u8 {
    match p {
        "Low" => 0,
        "Medium" => 1,
        "High" => 2,
        "Chat" => 3,
        _ => 255,
    }
}

pub fn real_prints(data: &[u8]) -> Result<Vec<(u8, Vec<u8>)>, Fail> {
    api("prints", || {
        mvdparser::prints(data).into_iter().map(|p| (level_of(&format!("{:?}", p.id)), p.content)).collect()
    })
}

pub fn real_frags(data: &[u8]) -> Result<BTreeMap<String, i32>, Fail> {
    api("frags_per_player_name", || mvdparser::frags_per_player_name(data).into_iter().collect())
}

pub fn real_pings(data: &[u8]) -> Result<Option<BTreeMap<u8, u32>>, Fail> {
    api("ping_per_player_number", || mvdparser::all::ping_per_player_number(data).ok().map(|m| m.into_iter().collect()))
}

/// tallies through the Debug form, the only public view of them
pub fn real_flags(data: &[u8]) -> Result<BTreeMap<String, [u32; 7]>, Fail> {
    let m: HashMap<String, String> = api("flag_events_per_player_name", || {
        mvdparser::all::flag_events_per_player_name(data).into_iter().map(|(k, v)| (k, format!("{v:?}"))).collect()
    })?;
    let mut out = BTreeMap::new();
    for (k, v) in m {
        let mut t = [u32::MAX; 7];
        for part in v.trim_end_matches('}').split(['{', ',']) {
            if let Some((n, x)) = part.split_once(':') {
                if let Some(i) = obits::FLAG_KINDS.iter().position(|f| *f == n.trim()) {
                    t[i] = x.trim().parse().unwrap_or(u32::MAX);
                }
            }
        }
        out.insert(k, t);
    }
    Ok(out)
}

/// real recordings as decoded histories
pub fn real_histories() -> &'static Vec<(String, Vec<u8>, Vec<Ev>)> {
    static R: OnceLock<Vec<(String, Vec<u8>, Vec<Ev>)>> = OnceLock::new();
    R.get_or_init(|| {
        real::demos()
            .into_iter()
            .map(|(n, d)| {
                let frames = wire::decode(&d);
                assert!(wire::encode(&frames) == d, "decoder/encoder do not round-trip {n}");
                let evs: Vec<Ev> = frames.iter().map(abstract_frame).collect();
                (n, d, evs)
            })
            .collect()
    })
}

pub fn demo_choice(cx: &mut Ctx) -> Option<&'static (String, Vec<u8>, Vec<Ev>)> {
    let r = real_histories();
    if r.is_empty() {
        return None;
    }
    let i = cx.choose(r.len());
    let (n, d, e) = (&r[i].0, r[i].1.len(), r[i].2.len());
    cx.note(|| format!("real recording {n}: {d} bytes, {e} frames, re-encoded byte for byte"));
    Some(&r[i])
}

pub const TARGETS: [u8; 5] = [6, 1, 3, 4, 5];

/// The same history in other frames: other targets and times, other values where the value says nothing
/// about the fact (scores in score updates, packet losses).
pub fn dressed(cx: &mut Ctx, evs: &[Ev]) -> Vec<Ev> {
    let mut out = evs.to_vec();
    let mut each = |f: &mut dyn FnMut(usize, &mut u8, &mut u8, &mut u8, &mut Vec<Msg>)| {
        for (i, e) in out.iter_mut().enumerate() {
            if let Ev::Msgs { ms, kind, player, msgs } = e {
                f(i, ms, kind, player, msgs);
            }
        }
    };
    match cx.choose(5) {
        0 => {
            let k = *cx.pick(&TARGETS);
            let p = cx.choose(32) as u8;
            each(&mut |_, _, kind, player, _| (*kind, *player) = (k, p));
        }
        1 => {
            // one frame to somebody else than the others
            let at = cx.choose(evs.len());
            let k = *cx.pick(&TARGETS);
            let p = *cx.pick(&[0u8, 1, 31]);
            each(&mut |i, _, kind, player, _| {
                if i == at {
                    (*kind, *player) = (k, p);
                }
            });
        }
        2 => {
            let t = *cx.pick(&[0u8, 1, 12, 13, 14, 127, 128, 254, 255]);
            let at = cx.choose(evs.len() + 1);
            each(&mut |i, ms, _, _, _| {
                if i == at || at == evs.len() {
                    *ms = t;
                }
            });
        }
        3 => {
            let v = *cx.pick(&[0i16, 1, -1, 2, 8, 14, 36, 99, -99, 127, 128, 255, 256, 0x0808, 999, 1000, i16::MAX, i16::MIN]);
            each(&mut |_, _, _, _, msgs| {
                for m in msgs {
                    if let Msg::Frags(s, _) = *m {
                        *m = Msg::Frags(s, v);
                    }
                }
            });
        }
        _ => {
            let loss = cx.choose(256) as u8;
            let first = cx.flag();
            let mut seen = 0;
            each(&mut |_, _, _, _, msgs| {
                for m in msgs {
                    if let Msg::Ping(s, p) = *m {
                        seen += 1;
                        if !first || seen == 1 {
                            *m = Msg::Raw(msg::ping(s, p, loss));
                        }
                    }
                }
            });
        }
    }
    out
}

// --- C03 -------------------------------------------------------------------------------------

fn check_prints(cx: &mut Ctx, evs: &[Ev]) -> Verdict {
    let mut m = Prints::default();
    for e in evs {
        m.step(e);
        cx.step(e, &m);
    }
    let data = encode(evs);
    show(cx, evs);
    cx.input(&data);
    let got = real_prints(&data)?;
    cx.compared();
    cx.outcome(&got);
    same("prints", &got, &m.list)
}

pub fn c03(_t: Tier) -> Prop {
    let seqs = scenario("message sequences", (0, 0), |cx| {
        let alphabet = [
            Msg::print(2, "a"),
            Msg::print(2, "b\n"),
            Msg::print(3, "a"),
            Msg::print(0, ""),
            Msg::Raw(vec![3, 5, 6, 8, 2, b'x', 0]),
        ];
        let (frames, msgs) = cx.by((3, 2), (3, 3));
        let nf = 1 + cx.choose(frames);
        let mut evs = vec![];
        for _ in 0..nf {
            let nm = cx.choose(msgs + 1);
            let ms: Vec<Msg> = (0..nm).map(|_| cx.pick(&alphabet).clone()).collect();
            evs.push(Ev::all(13, ms));
        }
        check_prints(cx, &evs)
    });
    let long = scenario("longer runs over a small alphabet", (0, 0), |cx| {
        let n = cx.by(7, 9);
        let mut evs = vec![];
        for _ in 0..n {
            let e = match cx.choose(5) {
                0 => Ev::all(1, vec![Msg::print(2, "a")]),
                1 => Ev::all(1, vec![Msg::print(2, "b")]),
                2 => Ev::all(0, vec![]),
                3 => Ev::Silent(Frame::hidden(5, 7, 0, &[1, 2, 3])),
                _ => Ev::all(1, vec![Msg::print(2, "a"), Msg::print(1, "c"), Msg::Frags(1, 2)]),
            };
            evs.push(e);
        }
        check_prints(cx, &evs)
    });
    let targets = scenario("targets, players, times and levels", (0, 0), |cx| {
        let kind = *cx.pick(&TARGETS);
        let player = cx.choose(32) as u8;
        let ms = *cx.pick(&[0u8, 1, 127, 255]);
        let level = cx.choose(4) as u8;
        let between = *cx.pick(&[6u8, 1, 3, 4, 5, 0, 7, 2]);
        let e = |k: u8, p: u8, m: Vec<Msg>| Ev::Msgs { ms, kind: k, player: p, msgs: m };
        let mid = match between {
            0 | 7 | 2 => Ev::Silent(Frame::to(ms, between, player, vec![])),
            k => e(k, player, vec![Msg::print(level, "mid"), Msg::print(level, "dle")]),
        };
        let evs = vec![
            e(6, 0, vec![Msg::print(2, "first\n")]),
            e(kind, player, vec![Msg::print(level, "text"), Msg::print(level, ""), Msg::print(3 - level, "text")]),
            mid,
            e(kind, 31 - player, vec![Msg::print(level, "text")]),
        ];
        check_prints(cx, &evs)
    });
    let bytes = scenario("content bytes and lengths", (0, 0), |cx| {
        let b = 1 + cx.choose(255) as u8;
        let shape = cx.choose(5);
        let text = match shape {
            0 => vec![b],
            1 => vec![b, b'x'],
            2 => vec![b'x', b],
            3 => vec![b'a', b, b'b', b, b'c'],
            _ => {
                let lens = [2usize, 100, 254, 255, 256, 257, 1023, 1024, 2047, 4096, 65535, 65536, 70001];
                let n = lens[cx.choose(lens.len())];
                vec![b; n]
            }
        };
        let evs = vec![
            Ev::all(0, vec![Msg::Print(2, text.clone()), Msg::Print(3, text.clone())]),
            Ev::all(0, vec![Msg::Print(3, text.clone()), Msg::Print(0, text), Msg::Frags(1, 1)]),
        ];
        check_prints(cx, &evs)
    });
    let many = scenario("accumulation", (0, 0), |cx| {
        let n = *cx.pick(&[255usize, 256, 257, 1000, 65535, 65536, 65537]);
        let per = *cx.pick(&[1usize, 3, 300]);
        let distinct = cx.flag();
        let mut evs = vec![];
        let mut i = 0;
        while i < n {
            let k = per.min(n - i);
            evs.push(Ev::all(1, (0..k).map(|j| Msg::print(2, &if distinct { format!("{}", i + j) } else { "same".to_string() })).collect()));
            i += k;
        }
        let mut m = Prints::default();
        for e in &evs {
            m.step(e);
        }
        cx.step(&(n, per, distinct), &m);
        let data = encode(&evs);
        cx.note(|| format!("{n} prints, {per} per frame, distinct={distinct}"));
        let got = real_prints(&data)?;
        cx.compared();
        same("number of prints", &got.len(), &m.list.len())?;
        same("prints", &got, &m.list)
    });
    let apart = scenario("prints far apart", (0, 0), |cx| {
        let (n1, n2) = (far(cx), far(cx));
        let which = cx.choose(4);
        let texts = [["a\n", "a\n", "b\n"], ["a\n", "b\n", "a\n"], ["a\n", "b\n", "b\n"], ["a\n", "b\n", "c\n"]][which];
        let level = *cx.pick(&[0u8, 1, 2, 3]);
        let evs: Vec<Ev> = texts.iter().map(|t| Ev::all(1, vec![Msg::print(level, t)])).collect();
        let mut m = Prints::default();
        let mut data = vec![];
        for (i, e) in evs.iter().enumerate() {
            m.step(e);
            e.frame().encode(&mut data);
            data.extend(filler([n1, n2, 0][i]).0);
        }
        cx.step(&(n1, n2, texts, level), &m);
        cx.note(|| format!("{texts:?}, {n1} and {n2} bytes of other frames between"));
        let got = real_prints(&data)?;
        cx.compared();
        same("prints", &got, &m.list)
    });
    let close = scenario("prints that are almost the same", (0, 0), |cx| {
        let n = *cx.pick(&[1usize, 2, 3, 8, 16, 40, 100, 300]);
        let base: Vec<u8> = (0..n).map(|i| b'a' + (i % 20) as u8).collect();
        let at = if n <= 40 { cx.choose(n) } else { *cx.pick(&[0, 1, n / 2, n - 2, n - 1]) };
        let mut other = base.clone();
        match cx.choose(11) {
            b @ 0..=7 => other[at] ^= 1 << b,
            8 => drop(other.remove(at)),
            9 => other.insert(at, b' '),
            _ => other.push(b'\n'),
        }
        if other.contains(&0) {
            return Ok(());
        }
        let same_frame = cx.flag();
        let (a, b) = (Msg::Print(2, base.clone()), Msg::Print(2, other));
        let evs = if same_frame {
            vec![Ev::all(1, vec![a.clone(), b, a])]
        } else {
            vec![Ev::all(1, vec![a.clone()]), Ev::all(1, vec![b]), Ev::all(1, vec![]), Ev::all(1, vec![a])]
        };
        check_prints(cx, &evs)
    });
    let repeats = scenario("repetitions with others between", (0, 0), |cx| {
        // every sequence over three texts, each in its own frame or sharing one
        let n = cx.by(7, 9);
        let texts = ["x", "y", "z"];
        let one = cx.flag();
        let seq: Vec<usize> = (0..n).map(|_| cx.choose(3)).collect();
        let msgs: Vec<Msg> = seq.iter().map(|i| Msg::print(3, texts[*i])).collect();
        let evs = if one { vec![Ev::all(1, msgs)] } else { msgs.into_iter().map(|m| Ev::all(1, vec![m])).collect() };
        check_prints(cx, &evs)
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, evs)) = demo_choice(cx) else { return Ok(()) };
        let mut m = Prints::default();
        for e in evs {
            m.step(e);
        }
        cx.step(&d.len(), &m);
        let got = real_prints(d)?;
        cx.compared();
        same("prints", &got, &m.list)
    });
    prop(vec![seqs, long, targets, bytes, many, conf, apart, close, repeats]).assume(&[
        "frames are well formed; every print is terminated inside its frame",
        "levels 0..3 (the protocol has no others)",
    ])
}

// --- C05 -------------------------------------------------------------------------------------

pub fn ms_of(d: Duration) -> u64 {
    // nearest millisecond
    ((d.as_nanos() + 500_000) / 1_000_000) as u64
}

fn mark_msg(m: Mark) -> Msg {
    match m {
        Mark::Over => Msg::print(2, "The match is over\n"),
        Mark::Standby => Msg::Raw(msg::serverinfo(b"status", b"Standby")),
        Mark::Matchdate => Msg::print(2, "matchdate: 2024-11-18 21:35:06 CET\n"),
    }
}

fn check_durations(cx: &mut Ctx, hoony: bool, opening: &[Frame], hist: &[(Ev, Vec<Mark>)], t0: Option<Time>) -> Verdict {
    let mut t = t0.unwrap_or_default();
    for f in opening {
        t.step(f.ms, &[]);
    }
    for (e, m) in hist {
        t.step(e.ms(), m);
        cx.step(&(e, m), &t);
    }
    let mut data = wire::encode(opening);
    for (e, _) in hist {
        e.frame().encode(&mut data);
    }
    if cx.record {
        for (e, m) in hist {
            let s = format!("{} {:?}", e.show(), m);
            cx.notes.push(s);
        }
    }
    cx.input(&data);
    verdict_durations(cx, hoony, &data, &t)
}

fn verdict_durations(cx: &mut Ctx, hoony: bool, data: &[u8], t: &Time) -> Verdict {
    let demo = api("demo_duration", || mvdparser::demo_duration(data).ok())?;
    let count = api("countdown_duration", || mvdparser::countdown_duration(data).ok())?;
    cx.compared();
    cx.outcome(&(demo, count));
    same("demo duration (ms)", &demo.map(ms_of), &Some(t.demo()))?;
    let want = if hoony { Some(0) } else { t.matchdate };
    same("countdown duration (ms)", &count.map(ms_of), &want)
}

fn opening_for(mode: &str) -> Vec<Frame> {
    let mut o = Opening::with(vec![Client::named(0, "a", "red"), Client::named(1, "b", "blue")]);
    o.slots = 8;
    o.serverinfo = format!("\\maxfps\\77\\mode\\{mode}\\map\\dm2").into_bytes();
    o.frames()
}

pub fn c05(_t: Tier) -> Prop {
    let main = scenario("times and landmarks", (0, 0), |cx| {
        let n = cx.by(4, 5);
        let mut hist = vec![];
        for i in 0..n {
            let ms = if i == 0 { 200u8 } else { *cx.pick(&[0u8, 1, 255]) };
            let (e, marks): (Ev, Vec<Mark>) = match cx.choose(8) {
                0 => (Ev::all(ms, vec![Msg::print(2, "hello\n")]), vec![]),
                1 => (Ev::all(ms, vec![mark_msg(Mark::Over)]), vec![Mark::Over]),
                2 => (Ev::all(ms, vec![Msg::Frags(0, 1), mark_msg(Mark::Standby)]), vec![Mark::Standby]),
                3 => (Ev::all(ms, vec![Msg::Frags(0, 1), mark_msg(Mark::Matchdate)]), vec![Mark::Matchdate]),
                4 => (Ev::all(ms, vec![mark_msg(Mark::Standby), mark_msg(Mark::Over), mark_msg(Mark::Matchdate)]), vec![Mark::Standby, Mark::Over, Mark::Matchdate]),
                5 => (Ev::all(ms, vec![]), vec![]),
                6 => (Ev::Silent(Frame::hidden(ms, 7, 0, &[9; 5])), vec![]),
                _ => (Ev::Silent(Frame::to(ms, 2, 0, vec![])), vec![]),
            };
            hist.push((e, marks));
        }
        check_durations(cx, false, &[], &hist, None)
    });
    let all_ms = scenario("every frame time, before, at and after a landmark", (0, 0), |cx| {
        let ms = cx.choose(256) as u8;
        let mark = *cx.pick(&[None, Some(Mark::Over), Some(Mark::Standby), Some(Mark::Matchdate)]);
        let pos = cx.choose(3);
        let kind = *cx.pick(&TARGETS);
        let player = *cx.pick(&[0u8, 7, 31]);
        let mut hist = vec![];
        for i in 0..3 {
            let x = if i == pos { ms } else { 10 + i as u8 };
            let (m, k) = if i == 1 {
                (mark.iter().map(|m| mark_msg(*m)).collect(), mark.iter().cloned().collect())
            } else {
                (vec![Msg::print(3, "a: the match is over soon\n")], vec![])
            };
            hist.push((Ev::Msgs { ms: x, kind, player, msgs: m }, k));
        }
        check_durations(cx, false, &[], &hist, None)
    });
    let bare = scenario("frames without messages carry time", (0, 0), |cx| {
        let mut hist = vec![];
        for _ in 0..cx.by(3, 4) {
            let ms = *cx.pick(&[1u8, 64, 255]);
            let e = match cx.choose(6) {
                0 => Ev::Silent(Frame::to(ms, 0, 0, vec![])),
                1 => Ev::Silent(Frame::to(ms, 7, 31, vec![])),
                2 => Ev::Silent(Frame::to(ms, 2, 9, vec![])),
                3 => Ev::Silent(Frame::hidden_raw(ms, vec![])),
                4 => Ev::all(ms, vec![Msg::Raw(vec![0; 3000])]),
                _ => Ev::Msgs { ms, kind: 5, player: 3, msgs: vec![Msg::Raw(vec![255; 70000])] },
            };
            hist.push((e, vec![]));
        }
        hist.push((Ev::all(3, vec![mark_msg(Mark::Over)]), vec![Mark::Over]));
        hist.push((Ev::all(7, vec![]), vec![]));
        check_durations(cx, false, &[], &hist, None)
    });
    let modes = scenario("game modes", (0, 0), |cx| {
        let mode = *cx.pick(&["2on2", "hoonymode", "1on1", "hoonymode2", "Hoonymode", "wipeout"]);
        let open = opening_for(mode);
        let mut hist = vec![];
        for _ in 0..3 {
            let m = *cx.pick(&[None, Some(Mark::Matchdate), Some(Mark::Over), Some(Mark::Standby)]);
            hist.push((Ev::all(50, m.iter().map(|m| mark_msg(*m)).collect()), m.iter().cloned().collect()));
        }
        check_durations(cx, mode == "hoonymode", &open, &hist, None)
    });
    let decoys = scenario("texts that are not landmarks", (0, 0), |cx| {
        let near = near_landmarks();
        let decoy = match cx.choose(9 + near.len()) {
            i if i >= 9 => near[i - 9].clone(),
            0 => Msg::print(2, "The match is ove\n"),
            1 => Msg::print(2, "the match is over\n"),
            2 => Msg::Raw(msg::serverinfo(b"status", b"Countdown")),
            3 => Msg::Raw(msg::serverinfo(b"status", b"Standb")),
            4 => Msg::Raw(msg::serverinfo(b"xstatus", b"Standby")),
            5 => Msg::print(3, "matchdate: 2024-11-18 21:35:06 CET\n"),
            6 => Msg::print(2, "matchdate 2024-11-18 21:35:06 CET\n"),
            7 => Msg::print(2, " matchdate: 2024-11-18 21:35:06 CET\n"),
            _ => Msg::print(2, "Standby\n"),
        };
        let real_marks = cx.choose(4);
        let at = cx.choose(3);
        let mut hist = vec![
            (Ev::all(10, vec![]), vec![]),
            (Ev::all(20, if real_marks & 1 != 0 { vec![mark_msg(Mark::Matchdate)] } else { vec![] }), if real_marks & 1 != 0 { vec![Mark::Matchdate] } else { vec![] }),
            (Ev::all(30, if real_marks & 2 != 0 { vec![mark_msg(Mark::Over)] } else { vec![] }), if real_marks & 2 != 0 { vec![Mark::Over] } else { vec![] }),
        ];
        hist.insert(at, (Ev::all(40, vec![decoy]), vec![]));
        hist.push((Ev::all(50, vec![]), vec![]));
        check_durations(cx, false, &[], &hist, None)
    });
    let long = scenario("long recordings", (0, 0), |cx| {
        // total of the run before the landmark frame, in ms
        let total: u64 = *cx.pick(&[65_535, 65_536, 1_000_001, 16_777_215, 16_777_217, 16_777_219, 33_554_433, 86_400_001]);
        let per = *cx.pick(&[255u8, 13]);
        let mark = *cx.pick(&[None, Some(Mark::Over), Some(Mark::Standby), Some(Mark::Matchdate)]);
        if cx.quick() && total > 40_000_000 && per == 13 {
            return Ok(());
        }
        long_run(cx, total, per, mark)
    });
    let longest = scenario("longest recordings", (0, 0), |cx| {
        // past the range of 32-bit milliseconds
        let total: u64 = *cx.pick(&[(1u64 << 32) - 1, 1 << 32, (1 << 32) + 255]);
        let mark = *cx.pick(&[Some(Mark::Over), None]);
        if cx.quick() && (mark.is_none() || total == 1 << 32) {
            return Ok(());
        }
        long_run(cx, total, 255, mark)
    });
    let apart = scenario("landmarks far apart", (0, 0), |cx| {
        let marks: [&[Mark]; 9] = [
            &[Mark::Over], &[Mark::Standby], &[Mark::Matchdate], &[Mark::Matchdate, Mark::Over], &[Mark::Over, Mark::Over], &[Mark::Standby, Mark::Standby],
            &[Mark::Matchdate, Mark::Matchdate], &[Mark::Over, Mark::Standby], &[Mark::Standby, Mark::Over],
        ];
        let ms = *cx.pick(&marks);
        let gaps = [far(cx), if ms.len() > 1 { far(cx) } else { 0 }, far(cx)];
        if cx.quick() && gaps.iter().filter(|g| **g >= 0x40000).count() > 2 {
            return Ok(());
        }
        let mut t = Time::default();
        let mut data = vec![];
        let mut pad = |n: usize, data: &mut Vec<u8>, t: &mut Time| {
            let (f, ms) = filler(n);
            data.extend(f);
            t.ms += ms;
        };
        for (i, m) in ms.iter().enumerate() {
            pad(gaps[i], &mut data, &mut t);
            Ev::all(11, vec![mark_msg(*m)]).frame().encode(&mut data);
            t.step(11, &[*m]);
        }
        pad(gaps[2], &mut data, &mut t);
        Ev::all(3, vec![]).frame().encode(&mut data);
        t.step(3, &[]);
        cx.step(&(ms, gaps), &t);
        cx.note(|| format!("{ms:?} with {gaps:?} bytes of other frames around"));
        verdict_durations(cx, false, &data, &t)
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, evs)) = demo_choice(cx) else { return Ok(()) };
        let mut t = Time::default();
        for e in evs {
            let b = match e.frame().messages() {
                Some(b) => b.to_vec(),
                None => vec![],
            };
            let has = |n: &[u8]| b.windows(n.len()).any(|w| w == n);
            let mut marks = vec![];
            if has(b"The match is over") {
                marks.push(Mark::Over)
            }
            if has(b"4status\0Standby\0") {
                marks.push(Mark::Standby)
            }
            if has(b"\x08\x02matchdate: ") {
                marks.push(Mark::Matchdate)
            }
            t.step(e.ms(), &marks);
        }
        cx.step(&d.len(), &t);
        let hoony = d[..1280].windows(15).any(|w| w == b"\\mode\\hoonymode");
        verdict_durations(cx, hoony, d, &t)
    });
    prop(vec![main, all_ms, bare, modes, decoys, long, longest, conf, apart]).assume(&[
        "landmark texts occur only in the prints and status changes that are landmarks (and in the listed decoys)",
        "durations are compared to the nearest millisecond, the unit of frame times",
    ])
}

/// Texts one step away from a landmark: cut short at either end, or with one character lost or
/// changed. None contains a landmark.
fn near_landmarks() -> Vec<Msg> {
    fn steps(t: &[u8]) -> Vec<Vec<u8>> {
        let mut v = vec![];
        for i in 0..t.len() {
            v.push(t[..i].to_vec());
            v.push(t[i + 1..].to_vec());
            v.push([&t[..i], &t[i + 1..]].concat());
            let flip = if t[i].is_ascii_alphabetic() { t[i] ^ 32 } else { b'x' };
            v.push([&t[..i], &[flip], &t[i + 1..]].concat());
            v.push([&t[..i], &[t[i] | 128], &t[i + 1..]].concat());
        }
        v
    }
    fn has(b: &[u8], n: &[u8]) -> bool {
        b.windows(n.len()).any(|w| w == n)
    }
    let mut v: Vec<Msg> = vec![];
    for t in steps(b"The match is over") {
        if !has(&t, b"The match is over") {
            v.push(Msg::Print(2, [&t[..], b"\n"].concat()));
            v.push(Msg::Raw(msg::stufftext(&[b"echo ", &t[..], b"\n"].concat())));
        }
    }
    for t in steps(b"matchdate: ") {
        if !has(&t, b"matchdate: ") {
            v.push(Msg::Print(2, [&t[..], b"2024-11-18 21:35:06 CET\n"].concat()));
        }
    }
    for t in steps(b"Standby") {
        if t != b"Standby" {
            v.push(Msg::Raw(msg::serverinfo(b"status", &t)));
        }
    }
    v.push(Msg::Raw(msg::serverinfo(b"status", b"Standby2")));
    v.push(Msg::Raw(msg::serverinfo(b"status", b"Standby ")));
    for t in steps(b"status") {
        if t != b"status" {
            v.push(Msg::Raw(msg::serverinfo(&t, b"Standby")));
        }
    }
    // the words of a matchdate anywhere but at the start of a high print
    for l in [0u8, 1, 3] {
        v.push(Msg::print(l, "matchdate: 2024-11-18 21:35:06 CET\n"));
    }
    v.push(Msg::Raw(msg::stufftext(b"//matchdate: 2024-11-18 21:35:06 CET\n")));
    let mut seen = std::collections::HashSet::new();
    v.retain(|m| seen.insert(format!("{m:?}")));
    v
}

fn long_run(cx: &mut Ctx, total: u64, per: u8, mark: Option<Mark>) -> Verdict {
    let n = total / per as u64;
    let rest = (total % per as u64) as u8;
    let mut data = Vec::with_capacity(2 * n as usize + 256);
    for _ in 0..n {
        data.extend_from_slice(&[per, 7]);
    }
    let mut t = Time { ms: n * per as u64, ..Default::default() };
    Frame::to(rest, 7, 0, vec![]).encode(&mut data);
    t.step(rest, &[]);
    if let Some(m) = mark {
        Ev::all(1, vec![mark_msg(m)]).frame().encode(&mut data);
        t.step(1, &[m]);
    }
    Ev::all(5, vec![]).frame().encode(&mut data);
    t.step(5, &[]);
    cx.step(&(total, per, mark), &t);
    cx.note(|| format!("{n} frames of {per} ms, one of {rest} ms, landmark {mark:?}, one of 5 ms"));
    guard::allow_for(data.len());
    let v = verdict_durations(cx, false, &data, &t);
    guard::allow_for(0);
    v
}

// --- C06 -------------------------------------------------------------------------------------

pub fn c06(_t: Tier) -> Prop {
    let main = scenario("sources of the match duration", (0, 0), |cx| {
        let mode = *cx.pick(&["2on2", "hoonymode"]);
        // (text after `"duration": `, milliseconds if that is a duration)
        let durs: [(Option<&str>, Option<u64>); 15] = [
            (None, None),
            (Some("600"), Some(600_000)),
            (Some("0"), Some(0)),
            (Some("1"), Some(1_000)),
            (Some("61.5"), Some(61_500)),
            (Some("1200"), Some(1_200_000)),
            (Some("4294967296"), Some(4_294_967_296_000)),
            (Some("-1"), None),
            (Some("-0.5"), None),
            (Some("1e300"), None),
            (Some("1e19"), Some(10_000_000_000_000_000_000_000u128 as u64)), // replaced below
            (Some("\"abc\""), None),
            (Some("null"), None),
            (Some("NaN"), None),
            (Some("inf"), None),
        ];
        let di = cx.choose(durs.len());
        let (dtext, mut dms) = durs[di];
        if dtext == Some("1e19") {
            dms = None; // handled as "some huge but representable value"
        }
        // how the report is stored
        let store = cx.choose(4); // whole, two blocks, cut short, without its last block
        let marks = cx.choose(6);
        let order: &[&[Mark]] = &[
            &[],
            &[Mark::Matchdate],
            &[Mark::Over],
            &[Mark::Matchdate, Mark::Over],
            &[Mark::Over, Mark::Matchdate],
            &[Mark::Standby, Mark::Matchdate],
        ];
        let mut frames = opening_for(mode);
        let mut t = Time::default();
        for f in &frames {
            t.step(f.ms, &[]);
        }
        let mut evs = vec![];
        for (i, m) in order[marks].iter().enumerate() {
            let ms = [100u8, 250][i];
            evs.push(Ev::all(ms, vec![mark_msg(*m)]));
            t.step(ms, &[*m]);
            cx.step(&(m, ms), &t);
        }
        evs.push(Ev::all(30, vec![]));
        t.step(30, &[]);
        let doc = match dtext {
            Some(d) => format!("{{\"version\": 3, \"map\": \"dm2\", \"mode\": \"2on2\", \"duration\": {d}, \"players\": []}}\n"),
            None => "{\"version\": 3, \"map\": \"dm2\", \"players\": []}\n".to_string(),
        };
        frames.extend(evs.iter().map(|e| e.frame()));
        let with_report = cx.flag();
        let mut readable = with_report;
        if with_report {
            let at = doc.len() / 2;
            let mut blocks = if store == 1 || store == 3 { wire::report_frames(doc.as_bytes(), &[at]) } else { wire::report_frames(doc.as_bytes(), &[]) };
            if store == 3 {
                blocks.pop();
                readable = false;
            }
            frames.extend(blocks);
        } else if di != 0 || store != 0 {
            return Ok(());
        }
        let mut data = wire::encode(&frames);
        if with_report && store == 2 {
            data.truncate(data.len() - 3);
            readable = false;
        }
        cx.note(|| format!("mode {mode}, report {with_report} ({doc:?}, stored as {store}), landmarks {:?}, after 100 ms and 250 ms", order[marks]));
        cx.step(&(mode, di, store, with_report), &(t.clone(), dms, readable));
        cx.input(&data);
        let got = api("match_duration", || mvdparser::match_duration(&data).ok())?;
        cx.compared();
        cx.outcome(&got);
        let count = if mode == "hoonymode" { 0 } else { t.matchdate.unwrap_or(0) };
        let seek = t.demo().saturating_sub(count);
        if dtext == Some("1e19") && readable && mode != "hoonymode" {
            // the largest power of ten a Duration can hold
            return same("match duration", &got, &Some(Duration::from_secs(10_000_000_000_000_000_000)));
        }
        let want = match dms {
            Some(ms) if readable && mode != "hoonymode" => ms,
            _ => seek,
        };
        same("match duration (ms)", &got.map(ms_of), &Some(want))
    });
    let order = scenario("landmark orders", (0, 0), |cx| {
        let mode = *cx.pick(&["2on2", "hoonymode"]);
        let frames = opening_for(mode);
        let mut t = Time::default();
        let mut hist = vec![];
        for i in 0..cx.by(5, 6) {
            let ms = [1u8, 255, 100, 10, 40, 7][i];
            let m = *cx.pick(&[None, Some(Mark::Matchdate), Some(Mark::Over), Some(Mark::Standby)]);
            let e = Ev::all(ms, m.iter().map(|m| mark_msg(*m)).collect());
            t.step(ms, &m.iter().cloned().collect::<Vec<_>>());
            cx.step(&(ms, m), &t);
            hist.push(e);
        }
        let mut data = wire::encode(&frames);
        data.extend(encode(&hist));
        show(cx, &hist);
        cx.input(&data);
        let got = api("match_duration", || mvdparser::match_duration(&data).ok())?;
        let seek = api("match_duration_from_seeking", || mvdparser::all::match_duration_from_seeking(&data).ok())?;
        cx.compared();
        cx.outcome(&got);
        let count = if mode == "hoonymode" { 0 } else { t.matchdate.unwrap_or(0) };
        let want = t.demo().saturating_sub(count);
        same("match duration (ms)", &got.map(ms_of), &Some(want))?;
        same("match duration from seeking (ms)", &seek.map(ms_of), &Some(want))
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, _)) = demo_choice(cx) else { return Ok(()) };
        // the last report's text, read with a JSON reader of our own choice
        let doc = {
            let frames = wire::decode(d);
            let mut doc = vec![];
            for f in &frames {
                if let wire::Body::Multi { mask: 0, data } = &f.body {
                    if data.len() > 8 && data[4..6] == [3, 0] {
                        doc.extend_from_slice(&data[8..]);
                    }
                }
            }
            doc
        };
        let hoony = d[..1280].windows(15).any(|w| w == b"\\mode\\hoonymode");
        let dur = serde_json::from_slice::<serde_json::Value>(&doc).ok().and_then(|v| v["duration"].as_f64());
        let got = api("match_duration", || mvdparser::match_duration(d).ok())?;
        cx.compared();
        cx.step(&d.len(), &dur.map(|d| d.to_bits()));
        match dur {
            Some(s) if !hoony => same("match duration (ms)", &got.map(ms_of), &Some((s * 1000.0).round() as u64)),
            _ => {
                let demo = api("demo_duration", || mvdparser::demo_duration(d).unwrap())?;
                let count = api("countdown", || mvdparser::countdown_duration(d).unwrap_or_default())?;
                same("match duration", &got, &Some(demo.saturating_sub(count)))
            }
        }
    });
    let numbers = scenario("every shape of the report's duration", (0, 0), |cx| {
        // whole seconds, fractions of up to three digits, exponents; the exact value is known
        let whole = *cx.pick(&[0u64, 1, 9, 59, 60, 600, 1234, 16_777_217, 12_345, 123_456, 4_294_967, 99_999_999]);
        let (text, ns) = match cx.choose(4) {
            0 => {
                let f = cx.choose(1000) as u64;
                (format!("{whole}.{f:03}"), whole * 1_000_000_000 + f * 1_000_000)
            }
            1 => {
                let f = cx.choose(10) as u64;
                (format!("{whole}.{f}"), whole * 1_000_000_000 + f * 100_000_000)
            }
            2 => {
                let f = cx.choose(100) as u64;
                (format!("{whole}.{f:02}0000"), whole * 1_000_000_000 + f * 10_000_000)
            }
            _ => {
                let (e, k) = *cx.pick(&[("e0", 1_000_000_000u64), ("E0", 1_000_000_000), ("e+0", 1_000_000_000), ("e-1", 100_000_000), ("E-3", 1_000_000), ("e1", 10_000_000_000), ("", 1_000_000_000), (".0", 1_000_000_000)]);
                if whole * 10 > u64::MAX / 1_000_000_000 {
                    return Ok(());
                }
                (format!("{whole}{e}"), whole * k)
            }
        };
        let hoony = cx.flag();
        let mut frames = opening_for(if hoony { "hoonymode" } else { "1on1" });
        frames.push(Frame::all(100, vec![]));
        let total: u64 = frames.iter().map(|f| f.ms as u64).sum();
        frames.extend(wire::report_frames(format!("{{\"version\": 3, \"duration\": {text}, \"players\": []}}\n").as_bytes(), &[]));
        let data = wire::encode(&frames);
        cx.step(&text, &(ns, hoony));
        cx.note(|| format!("duration {text}, hoonymode {hoony}"));
        cx.input(&data);
        let got = api("match_duration", || mvdparser::match_duration(&data).ok())?;
        cx.compared();
        cx.outcome(&got);
        let want = if hoony { total * 1_000_000 } else { ns };
        match got {
            Some(d) if d.as_nanos().abs_diff(want as u128) <= 100 => Ok(()),
            g => bad(format!("match duration: got {g:?}, expected {:?}", Duration::from_nanos(want))),
        }
    });
    let apart = scenario("report and landmarks far apart", (0, 0), |cx| {
        let gaps = [far(cx), far(cx), far(cx)];
        if cx.quick() && gaps.iter().filter(|g| **g >= 0x40000).count() > 1 {
            return Ok(());
        }
        let hoony = cx.flag();
        let (with_date, with_over, report) = (cx.flag(), cx.flag(), cx.choose(3));
        let mut t = Time::default();
        let open = opening_for(if hoony { "hoonymode" } else { "1on1" });
        let mut data = wire::encode(&open);
        t.ms += open.iter().map(|f| f.ms as u64).sum::<u64>();
        let pad = |n: usize, data: &mut Vec<u8>, t: &mut Time| {
            let (f, ms) = filler(n);
            data.extend(f);
            t.ms += ms;
        };
        for (i, (on, m)) in [(with_date, Mark::Matchdate), (with_over, Mark::Over)].into_iter().enumerate() {
            pad(gaps[i], &mut data, &mut t);
            if on {
                Ev::all(11, vec![mark_msg(m)]).frame().encode(&mut data);
                t.step(11, &[m]);
            }
        }
        if report > 0 {
            // whole, or with the long middle that real ones have
            let middle = if report == 2 { format!("\"x\": \"{}\", ", "y".repeat(gaps[2].min(0x10000))) } else { String::new() };
            let doc = format!("{{\"version\": 3, {middle}\"duration\": 77, \"players\": []}}\n");
            let cuts: Vec<usize> = (1..doc.len().div_ceil(8000)).map(|i| i * 8000).collect();
            data.extend(wire::encode(&wire::report_frames(doc.as_bytes(), &cuts)));
        }
        pad(gaps[2], &mut data, &mut t);
        cx.step(&(gaps, with_date, with_over, report, hoony), &t);
        cx.note(|| format!("gaps {gaps:?}, matchdate {with_date}, end {with_over}, report {report}, hoonymode {hoony}"));
        cx.input(&data);
        let got = api("match_duration", || mvdparser::match_duration(&data).ok())?;
        cx.compared();
        cx.outcome(&got);
        let count = if hoony { 0 } else { t.matchdate.unwrap_or(0) };
        let want = if report > 0 && !hoony { 77_000 } else { t.demo().saturating_sub(count) };
        same("match duration (ms)", &got.map(ms_of), &Some(want))
    });
    // what else a report says, behind its duration
    let around = scenario("contents of the report", (0, 0), |cx| {
        let before = *cx.pick(&[
            "", "\"map\": \"dm2\",", "\"date\": \"2024-05-20 20:25:32 CEST\",\n \"map\": \"dm2\",\n \"hostname\": \"h\",\n \"ip\": \"1.2.3.4\",\n \"port\": 27500,\n \"mode\": \"team\",\n \"tl\": 10,\n \"dm\": 1,\n \"tp\": 2,\n",
            "\"tl\": 20, \"durations\": 4,", "\"hostname\": \"duration: 9\",", "\"hostname\": \"a \\\"duration\\\": 9, b\",", "\"Duration\": 9,", "\"x\": \"duration\",",
        ]);
        let d = *cx.pick(&["7", "600", "1201", "3.5"]);
        let after = *cx.pick(&[
            "\"players\": []", "\"duration_ms\": 9, \"x\": 1", "\"players\": [{\"name\": \"ann\", \"duration\": 5, \"team\": \"a\"}]",
            "\"players\": [{\"duration\": 5.5, \"name\": \"ann\"}, {\"name\": \"bo\", \"duration\": 44, \"team\": \"a\"}]", "\"x\": {\"duration\": 300, \"y\": 2}",
            "\"x\": [{\"duration\": 0}, {\"duration\": -1, \"z\": 3}]", "\"hostname\": \"duration: 9, \", \"y\": 1", "\"hostname\": \"\\\"duration\\\": 9, \", \"y\": 1",
            "\"tl\": 10, \"overtime\": 3, \"players\": []", "\"timelimit\": 10, \"dur\": 2",
        ]);
        let gap = *cx.pick(&["", " ", "\n", "\n  "]);
        let blocks = cx.choose(4);
        let doc = format!("{{\"version\": 3,{gap}{before}{gap}\"duration\": {d},{gap}{after}}}\n");
        let cuts: Vec<usize> = match blocks {
            0 => vec![],
            1 => vec![doc.len() / 2],
            2 => vec![doc.find(d).unwrap_or(1)],
            _ => (20..doc.len()).step_by(5).collect(),
        };
        let hoony = cx.flag();
        let mut frames = opening_for(if hoony { "hoonymode" } else { "2on2" });
        let mut t = Time::default();
        for f in &frames {
            t.step(f.ms, &[]);
        }
        for (ms, m) in [(200u8, Mark::Matchdate), (240, Mark::Over)] {
            frames.push(Ev::all(ms, vec![mark_msg(m)]).frame());
            t.step(ms, &[m]);
        }
        frames.extend(wire::report_frames(doc.as_bytes(), &cuts));
        let data = wire::encode(&frames);
        cx.step(&(&doc, &cuts, hoony), &t);
        cx.note(|| format!("report {doc:?} in {} blocks, hoonymode {hoony}", cuts.len() + 1));
        cx.input(&data);
        let got = api("match_duration", || mvdparser::match_duration(&data).ok())?;
        cx.compared();
        cx.outcome(&got);
        let want = if hoony { t.demo() } else { (d.parse::<f64>().unwrap() * 1000.0) as u64 };
        same("match duration (ms)", &got.map(ms_of), &Some(want))
    });
    prop(vec![main, order, conf, numbers, apart, around]).assume(&["the stats report is written the way the recorder writes it (one space after each colon)"])
}

// --- C07 -------------------------------------------------------------------------------------

fn check_frags(cx: &mut Ctx, hist: &[(Ev, Vec<Score>)]) -> Verdict {
    let mut m = Frags::default();
    for (e, s) in hist {
        m.step(e, s);
        cx.step(e, &m);
    }
    let mut data = vec![];
    for (e, _) in hist {
        e.frame().encode(&mut data);
    }
    if cx.record {
        for (e, s) in hist {
            let s = format!("{} {:?}", e.show(), s);
            cx.notes.push(clip(s));
        }
    }
    cx.input(&data);
    let got = real_frags(&data)?;
    cx.compared();
    cx.outcome(&got);
    same("frags", &got, &m.score)
}

/// names that stress what a name may be: plain, coloured, control characters, characters that some
/// notions of white space include, inner and doubled spaces, apostrophes, upper half
pub fn names() -> Vec<String> {
    let mut v: Vec<String> = ["a", "Player One", "b  c", "x's", "\u{10}tag\u{11}zz", "ÂÏÔ", "n\u{85}", "n\u{a0}", "\u{85}n", "\u{a0}n\u{a0}", "ÿ", "\u{7f}\u{80}", "123", "-", "\u{1}\u{2}\u{3}", "na\u{8d}me", "\u{0e}mid\u{0f}"]
        .iter().map(|s| s.to_string()).collect();
    v.push("abcdefghijklmnopqrstuvwxyz01234".into());
    // longer than a player's name can be, and than the sizes buffers for names have
    for n in [32, 33, 40, 63, 64, 65, 130, 257, 1000] {
        v.push("abcdefghijklmnopqrstuvwxyz01234 Zy".chars().cycle().take(n - 1).chain(['#']).collect());
    }
    v
}

pub fn c07(_t: Tier) -> Prop {
    let wordings = scenario("every wording, every pair of names", (0, 0), |cx| {
        let w = cx.choose(obits::N_WORDINGS);
        let n = names();
        let a = cx.pick(&n).clone();
        // (the same name twice: two players may be called the same)
        let b = cx.pick(&n).clone();
        let (t, s) = obits::wording(w, &a, &b);
        let level = *cx.pick(&[1u8, 0, 2, 3]);
        let end = *cx.pick(&["\n", ""]);
        // nobody's frags are updated, so an unnamed team kill has no effect here
        let s = if level == 1 { s } else { Score::None };
        let hist = vec![
            (Ev::all(1, vec![Msg::print(level, &format!("{t}{end}")), Msg::Raw(vec![1])]), vec![s]),
        ];
        check_frags(cx, &hist)
    });
    let pairs = scenario("every pair of wordings", (0, 0), |cx| {
        let w1 = cx.choose(obits::N_WORDINGS);
        let w2 = cx.choose(obits::N_WORDINGS);
        let layout = cx.choose(3);
        let (t1, s1) = obits::wording(w1, "k1", "v1");
        let (t2, s2) = if layout == 1 { obits::wording(w2, "k1", "k2") } else { obits::wording(w2, "v1", "k1") };
        let p = |t: &str| Msg::print(1, &format!("{t}\n"));
        let hist = match layout {
            0 => vec![(Ev::all(1, vec![p(&t1), p(&t2)]), vec![s1, s2])],
            1 => vec![(Ev::all(1, vec![p(&t1)]), vec![s1]), (Ev::all(1, vec![p(&t2)]), vec![s2])],
            _ => vec![(Ev::all(1, vec![p(&t1), p(&t2), p(&t1)]), vec![s1.clone(), s2, s1])],
        };
        check_frags(cx, &hist)
    });
    let histories = scenario("histories", (0, 0), |cx| {
        // one event per frame; identical consecutive obituaries count each time
        let n = cx.by(5, 6);
        let mut hist = vec![];
        for _ in 0..n {
            let (m, s): (Vec<Msg>, Vec<Score>) = match cx.choose(9) {
                0 => (vec![Msg::print(1, "b was nailed by a\n")], vec![Score::Add("a".into(), 1)]),
                1 => (vec![Msg::print(1, "a rides b's rocket\n")], vec![Score::Add("b".into(), 1)]),
                2 => (vec![Msg::print(1, "a died\n")], vec![Score::Add("a".into(), -1)]),
                3 => (vec![Msg::print(1, "a suicides\n")], vec![Score::Add("a".into(), -2)]),
                4 => (vec![Msg::print(1, "b discovers blast radius\n")], vec![Score::Add("b".into(), -1)]),
                5 => (vec![Msg::print(1, "a loses another friend\n")], vec![Score::Add("a".into(), -1)]),
                6 => (vec![Msg::print(2, "a died\n"), Msg::print(1, "b stomps a\n")], vec![Score::Add("b".into(), 1)]),
                7 => (vec![Msg::print(1, "a joins the game\n"), Msg::Frags(0, 3)], vec![Score::None]),
                _ => (vec![Msg::print(1, "b stomps a\n"), Msg::print(1, "b stomps a\n"), Msg::print(3, "a: b stomps a\n")], vec![Score::Add("b".into(), 1), Score::Add("b".into(), 1)]),
            };
            hist.push((Ev::all(10, m), s));
        }
        check_frags(cx, &hist)
    });
    let near = scenario("texts one step away from a wording", (0, 0), |cx| {
        let w = cx.choose(obits::N_WORDINGS);
        let (t, _) = obits::wording(w, "k1", "v1");
        let chars: Vec<char> = t.chars().collect();
        let at = cx.choose(chars.len());
        let mut c = chars.clone();
        match cx.choose(6) {
            0 => drop(c.remove(at)),
            1 => c[at] = 'x',
            2 => c[at] = if c[at].is_ascii_alphabetic() { (c[at] as u8 ^ 32) as char } else { '_' },
            3 => c[at] = (c[at] as u8 | 128) as char,
            4 => c.truncate(at),
            _ => c.insert(at, 'x'),
        }
        let t: String = c.into_iter().collect();
        if obits::readings(&t) != 0 {
            return Ok(());
        }
        let hist = vec![
            (Ev::all(1, vec![Msg::print(1, "a died\n")]), vec![Score::Add("a".into(), -1)]),
            (Ev::all(1, vec![Msg::print(1, &format!("{t}\n")), Msg::Frags(1, 1)]), vec![]),
            (Ev::all(1, vec![Msg::print(1, "k1 stomps v1\n")]), vec![Score::Add("k1".into(), 1)]),
        ];
        check_frags(cx, &hist)
    });
    let speaking = scenario("names made of the wordings' words", (0, 0), |cx| {
        let names = [
            "x suicides y", "suicides", " suicides", "suicides now", "x died", "died x", "by", " by ", "was", "a teammate", "x's", "'s", "'s rocket", "rocket", " the", "x was", "was x by y",
            "his teammate", "x by his", "x \"??\" y", "\"??\"", "rips", " rips", "a new one", " a new one", "new one", "x stomp", "s's", "'", " 's", "x ", " x", "quad rocket", "x's quad", "fall", "discharge",
        ];
        let w = cx.choose(obits::N_WORDINGS);
        let a = *cx.pick(&names);
        let b = *cx.pick(&names);
        let (t, s) = obits::wording(w, a, b);
        // where the text can only be read one way
        if obits::readings(&t) != 1 || matches!(s, Score::Unnamed(_)) {
            return Ok(());
        }
        // names that end a text in a blank lose it with the line's end
        if t.ends_with(' ') {
            return Ok(());
        }
        check_frags(cx, &[(Ev::all(1, vec![Msg::print(1, &format!("{t}\n"))]), vec![s])])
    });
    let layouts = scenario("obituaries sharing frames", (0, 0), |cx| {
        let frames = cx.by(2, 3);
        let mut hist = vec![];
        for _ in 0..frames {
            let n = cx.choose(4);
            let mut m = vec![];
            let mut s = vec![];
            for _ in 0..n {
                match cx.choose(6) {
                    0 => { m.push(Msg::print(1, "b was nailed by a\n")); s.push(Score::Add("a".into(), 1)) }
                    1 => { m.push(Msg::print(1, "a was nailed by b\n")); s.push(Score::Add("b".into(), 1)) }
                    2 => { m.push(Msg::print(1, "a suicides\n")); s.push(Score::Add("a".into(), -2)) }
                    3 => m.push(Msg::print(3, "a suicides\n")),
                    4 => { m.push(Msg::print(1, "")); }
                    _ => { m.push(Msg::print(1, "c visits the Volcano God\n")); s.push(Score::Add("c".into(), -1)) }
                }
            }
            match cx.choose(3) {
                0 => {}
                1 => m.push(Msg::Frags(1, 7)),
                _ => m.push(Msg::Raw(vec![19, 8, 1, 2])),
            }
            let kind = *cx.pick(&[6u8, 3]);
            hist.push((Ev::Msgs { ms: 1, kind, player: 0, msgs: m }, s));
        }
        check_frags(cx, &hist)
    });
    let dress = scenario("whatever frames the obituaries are in", (0, 0), |cx| {
        let hist: Vec<(Ev, Vec<Score>)> = vec![
            (Ev::all(9, vec![Msg::print(1, "ann was nailed by bob\n"), Msg::Frags(1, 1)]), vec![Score::Add("bob".into(), 1)]),
            (Ev::all(9, vec![Msg::print(1, "bob suicides\n"), Msg::print(1, "cyd cratered\n")]), vec![Score::Add("bob".into(), -2), Score::Add("cyd".into(), -1)]),
            (Ev::all(9, vec![Msg::Frags(2, -1), Msg::print(1, "cyd died\n")]), vec![]),
            (Ev::all(9, vec![Msg::print(1, "ann loses another friend\n")]), vec![Score::Add("ann".into(), -1)]),
            (Ev::all(9, vec![Msg::print(2, "bob cratered\n"), Msg::print(1, "ann rips cyd a new one\n")]), vec![Score::Add("ann".into(), 1)]),
        ];
        let evs: Vec<Ev> = hist.iter().map(|(e, _)| e.clone()).collect();
        let d = dressed(cx, &evs);
        let hist: Vec<(Ev, Vec<Score>)> = d.into_iter().zip(hist).map(|(e, (_, s))| (e, s)).collect();
        check_frags(cx, &hist)
    });
    let sums = scenario("accumulation", (0, 0), |cx| {
        let n = *cx.pick(&[50u32, 51, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 999, 1000, 1001, 9999, 10000, 32767, 32768, 32769, 65535, 65536, 70000]);
        let kind = cx.choose(9);
        let (t, d) = [
            ("b was nailed by a\n", 1), ("a died\n", -1), ("a suicides\n", -2), ("a discovers blast radius\n", -1), ("a loses another friend\n", -1),
            ("a stomps b\n", 1), ("a rips b a new one\n", 1), ("b rides a's rocket\n", 1), ("a tries to put the pin back in\n", -1),
        ][kind];
        let mut data = vec![];
        for _ in 0..n {
            Ev::all(1, vec![Msg::print(1, t)]).frame().encode(&mut data);
        }
        let want: BTreeMap<String, i32> = [("a".to_string(), n as i32 * d)].into();
        cx.step(&(n, kind), &want);
        cx.note(|| format!("{n} times {t:?}"));
        let got = real_frags(&data)?;
        cx.compared();
        same("frags", &got, &want)
    });
    let kin = scenario("names that are almost the same", (0, 0), |cx| {
        let (a, b) = siblings(cx);
        let w = cx.choose(obits::N_WORDINGS);
        let turn = cx.choose(5);
        let (t1, s1) = if turn & 1 == 0 { obits::wording(w, a, b) } else { obits::wording(w, b, a) };
        let (t2, s2) = match turn {
            0 | 1 => (format!("{b} died"), Score::Add(b.into(), -1)),
            2 => (format!("{b} suicides"), Score::Add(b.into(), -2)),
            3 => (format!("{a} stomps {b}"), Score::Add(a.into(), 1)),
            _ => (format!("{b} was nailed by {a}"), Score::Add(a.into(), 1)),
        };
        if matches!(s1, Score::Unnamed(_)) || obits::readings(&t1) != 1 || obits::readings(&t2) != 1 {
            return Ok(());
        }
        let p = |t: &str| Msg::print(1, &format!("{t}\n"));
        check_frags(cx, &[(Ev::all(1, vec![p(&t1)]), vec![s1.clone()]), (Ev::all(1, vec![p(&t2), p(&t1)]), vec![s2, s1])])
    });
    let apart = scenario("obituaries far apart", (0, 0), |cx| {
        let (n1, n2) = (far(cx), far(cx));
        let w = *cx.pick(&[0usize, 20, 28, 30, 45, 60]);
        let (t, s) = obits::wording(w, "k1", "v1");
        if matches!(s, Score::Unnamed(_)) {
            return Ok(());
        }
        let mut m = Frags::default();
        let mut data = vec![];
        for n in [n1, n2, 0] {
            let e = Ev::all(1, vec![Msg::print(1, &format!("{t}\n"))]);
            m.step(&e, &[s.clone()]);
            e.frame().encode(&mut data);
            data.extend(filler(n).0);
        }
        cx.step(&(n1, n2, w), &m);
        cx.note(|| format!("three times {t:?}, {n1} and {n2} bytes of other frames between"));
        let got = real_frags(&data)?;
        cx.compared();
        same("frags", &got, &m.score)
    });
    let crowd = scenario("many players", (0, 0), |cx| {
        // every one of n players has a score of its own
        let n = *cx.pick(&[2usize, 16, 17, 31, 32, 33, 64, 255, 256, 257, 1000]);
        let w = cx.choose(obits::N_WORDINGS);
        let mut m = Frags::default();
        let mut data = vec![];
        for i in 0..n {
            let (t, s) = obits::wording(w, &format!("p{i}"), &format!("p{}", (i + 1) % n));
            if matches!(s, Score::Unnamed(_)) {
                return Ok(());
            }
            let e = Ev::all(1, vec![Msg::print(1, &format!("{t}\n")); 1 + i % 3]);
            m.step(&e, &vec![s; 1 + i % 3]);
            e.frame().encode(&mut data);
        }
        cx.step(&(n, w), &m);
        cx.note(|| format!("{n} players, wording {w}"));
        let got = real_frags(&data)?;
        cx.compared();
        same("frags", &got, &m.score)
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, evs)) = demo_choice(cx) else { return Ok(()) };
        let clients = api("clients", || mvdparser::all::clients(d).unwrap_or_default())?;
        let mut m = Frags::new(clients.iter().map(|c| (c.number, c.name.clone(), c.team.clone())).collect());
        for e in evs {
            m.step_text(e);
        }
        cx.step(&d.len(), &m);
        let got = real_frags(d)?;
        cx.compared();
        same("frags", &got, &m.score)
    });
    prop(vec![wordings, pairs, near, speaking, histories, layouts, dress, sums, conf, kin, apart, crowd]).assume(&[
        "obituary texts can be read one way only: names do not complete a second wording",
        "names do not end in an ASCII blank (servers remove those)",
        "obituaries open their frame (as the recorder writes them); prints after other messages are not promised",
    ])
}

// --- C08 -------------------------------------------------------------------------------------

pub fn c08(_t: Tier) -> Prop {
    // rosters: which slots are used, and each one's team
    fn roster(cx: &mut Ctx, full: bool) -> Vec<(u8, String, String)> {
        let slots: Vec<Vec<u8>> = vec![vec![0, 1, 2, 3], vec![0, 2, 3, 5], vec![1, 2, 4, 6], vec![3, 4, 5, 7], vec![0, 5, 6, 7]];
        let s = if full { cx.pick(&slots).clone() } else { cx.pick(&slots[..3]).clone() };
        let teams = ["red", "blue"];
        let names = ["ann", "bob", "cyd", "dan"];
        s.iter().enumerate().map(|(i, slot)| {
            let t = if i == 0 { "red" } else { teams[cx.choose(2)] };
            (*slot, names[i].to_string(), t.to_string())
        }).collect()
    }
    fn opening(r: &[(u8, String, String)]) -> Vec<Frame> {
        let mut o = Opening::with(r.iter().map(|(s, n, t)| Client::named(*s, n, t)).collect());
        o.slots = 8;
        o.frames()
    }
    fn check(cx: &mut Ctx, r: &[(u8, String, String)], hist: &[(Ev, Vec<Score>)]) -> Verdict {
        check_in(cx, &opening(r), r, hist)
    }
    fn check_in(cx: &mut Ctx, open: &[Frame], r: &[(u8, String, String)], hist: &[(Ev, Vec<Score>)]) -> Verdict {
        let mut m = Frags::new(r.to_vec());
        for f in open {
            m.step(&abstract_frame(f), &[]);
        }
        let mut data = wire::encode(open);
        cx.step(&0, &m);
        for (e, s) in hist {
            m.step(e, s);
            cx.step(e, &m);
            e.frame().encode(&mut data);
        }
        cx.note(|| format!("roster {r:?}"));
        for (e, s) in hist {
            cx.note(|| format!("{} {s:?}", e.show()));
        }
        cx.input(&data);
        let got = real_frags(&data)?;
        cx.compared();
        cx.outcome(&got);
        same("frags", &got, &m.score)
    }
    let place = scenario("placement of updates around the print", (0, 0), |cx| {
        let r = roster(cx, true);
        let victim = cx.choose(if cx.quick() { 2 } else { 4 });
        let vname = r[victim].1.clone();
        let tk = Msg::print(1, &format!("{vname} was telefragged by his teammate\n"));
        // frame 0 is the print's frame, then four more; each may open with an update of one of the slots
        let mut hist = vec![];
        for i in 0..5 {
            let mut m = if i == 0 { vec![tk.clone()] } else { vec![] };
            let wide = i == 1 || i == 2;
            let k = if wide { cx.choose(6) } else { cx.choose(3) };
            match k {
                0 => m.push(Msg::Raw(vec![3, 1, 2])),
                1 => m.push(Msg::Frags(r[(victim + 1) % 4].0, 4)),
                2 => {
                    if i == 0 {
                        m.push(Msg::Frags(r[victim].0, -1))
                    } else {
                        m.push(Msg::Frags(r[(victim + 2) % 4].0, 4))
                    }
                }
                3 => {} // frame without content: not one of the frames looked at
                4 => {
                    m.push(Msg::Raw(vec![3, 1, 2])); // an update that does not open the frame
                    m.push(Msg::Frags(r[(victim + 1) % 4].0, 4));
                }
                _ => m.push(Msg::Frags(r[victim].0, -1)),
            }
            hist.push((Ev::all(10, m), if i == 0 { vec![Score::Unnamed(vname.clone())] } else { vec![] }));
        }
        check(cx, &r, &hist)
    });
    let words = scenario("every wording, with other obituaries around", (0, 0), |cx| {
        let r = roster(cx, false);
        let w = cx.choose(6);
        let (before, after) = (cx.choose(3), cx.choose(4));
        let vname = r[0].1.clone();
        let text = format!("{vname}{}\n", obits::UNNAMED_TEAMKILLS[w]);
        let mut hist = vec![];
        let other = |n: &str| (Ev::all(5, vec![Msg::print(1, &format!("{n} was nailed by zed\n")), Msg::Frags(r[1].0, 1)]), vec![Score::Add("zed".into(), 1)]);
        if before == 1 {
            hist.push(other("x"));
        }
        let mut m = vec![Msg::print(1, &text)];
        let mut s = vec![Score::Unnamed(vname.clone())];
        if before == 2 {
            m.insert(0, Msg::print(1, "y cratered\n"));
            s.insert(0, Score::Add("y".into(), -1));
        }
        match after {
            0 => m.push(Msg::Frags(r[2].0, 3)),
            1 => {
                m.push(Msg::print(1, "y cratered\n"));
                s.push(Score::Add("y".into(), -1));
                m.push(Msg::Frags(r[3].0, 3));
            }
            _ => {}
        }
        hist.push((Ev::all(5, m), s));
        if after == 2 {
            hist.push((Ev::all(5, vec![Msg::Frags(r[3].0, 3), Msg::Frags(r[1].0, 3)]), vec![]));
        }
        if after == 3 {
            hist.push(other("x"));
            hist.push((Ev::all(5, vec![Msg::Frags(r[1].0, 3)]), vec![]));
        }
        hist.push((Ev::all(5, vec![Msg::Frags(r[0].0, 3)]), vec![]));
        check(cx, &r, &hist)
    });
    let multi = scenario("several team kills", (0, 0), |cx| {
        let r = roster(cx, false);
        let n = cx.by(3, 4);
        let mut hist = vec![];
        for _ in 0..n {
            match cx.choose(5) {
                0 => hist.push((Ev::all(5, vec![Msg::print(1, &format!("{} was crushed by her teammate\n", r[0].1)), Msg::Frags(r[1].0, 1)]), vec![Score::Unnamed(r[0].1.clone())])),
                1 => hist.push((Ev::all(5, vec![Msg::print(1, &format!("{} was jumped by his teammate\n", r[1].1))]), vec![Score::Unnamed(r[1].1.clone())])),
                2 => hist.push((Ev::all(5, vec![Msg::Frags(r[2].0, 1)]), vec![])),
                3 => hist.push((Ev::all(5, vec![Msg::Frags(r[0].0, 1)]), vec![])),
                _ => hist.push((Ev::all(5, vec![Msg::print(1, "nobody was jumped by his teammate\n"), Msg::Frags(r[3].0, 1)]), vec![Score::Unnamed("nobody".into())])),
            }
        }
        check(cx, &r, &hist)
    });
    let kin = scenario("names and teams that are almost the same", (0, 0), |cx| {
        let (a, b) = siblings(cx);
        // who: the victim, a player whose name is close, two more; teams that are close
        let teams: [[&str; 4]; 6] = [["red", "red", "red", "red"], [a, b, a, b], [a, b, b, a], [a, a, b, b], ["", "", "x", "x"], ["", "x", "", "x"]];
        let t = *cx.pick(&teams);
        let names: [&str; 4] = if cx.flag() { [a, b, "cyd", "dan"] } else { ["ann", "bab", "cyd", "dan"] };
        let r: Vec<(u8, String, String)> = (0..4).map(|i| (i as u8 * 2, names[i].to_string(), t[i].to_string())).collect();
        let victim = cx.choose(2);
        let order: [[usize; 3]; 6] = [[0, 1, 2], [1, 2, 3], [2, 1, 0], [3, 2, 1], [1, 0, 3], [3, 0, 2]];
        let o = *cx.pick(&order);
        let v = names[victim].to_string();
        let text = format!("{v} was jumped by his teammate");
        if obits::readings(&text) != obits::readings("x was jumped by his teammate") {
            return Ok(());
        }
        let hist = vec![
            (Ev::all(1, vec![Msg::print(1, &format!("{text}\n")), Msg::Frags(r[o[0]].0, 1)]), vec![Score::Unnamed(v)]),
            (Ev::all(1, vec![Msg::Frags(r[o[1]].0, 1)]), vec![]),
            (Ev::all(1, vec![Msg::Frags(r[o[2]].0, 1)]), vec![]),
        ];
        check(cx, &r, &hist)
    });
    let dress = scenario("whatever frames the events are in", (0, 0), |cx| {
        let r: Vec<(u8, String, String)> = [(0, "ann", "red"), (2, "bob", "blue"), (3, "cyd", "red"), (5, "dan", "blue")].iter().map(|(i, n, t)| (*i as u8, n.to_string(), t.to_string())).collect();
        let shape = cx.choose(3);
        let mut hist = vec![
            (Ev::all(5, vec![Msg::print(1, "ann was jumped by his teammate\n")]), vec![Score::Unnamed("ann".into())]),
            (Ev::all(5, vec![Msg::Frags(2, -1)]), vec![]),
            (Ev::all(5, vec![Msg::Frags(3, -1)]), vec![]),
            (Ev::all(5, vec![Msg::Raw(vec![3, 1, 2])]), vec![]),
            (Ev::all(5, vec![Msg::print(1, "dan was crushed by her teammate\n"), Msg::Frags(2, 3)]), vec![Score::Unnamed("dan".into())]),
            (Ev::all(5, vec![Msg::Frags(3, 1)]), vec![]),
        ];
        match shape {
            0 => {}
            1 => hist.swap(1, 2),
            _ => hist.insert(1, (Ev::all(5, vec![]), vec![])),
        }
        let evs: Vec<Ev> = hist.iter().map(|(e, _)| e.clone()).collect();
        let d = dressed(cx, &evs);
        let hist: Vec<(Ev, Vec<Score>)> = d.into_iter().zip(hist).map(|(e, (_, s))| (e, s)).collect();
        check(cx, &r, &hist)
    });
    let slots = scenario("every slot", (0, 0), |cx| {
        // a full server, in two teams or one
        let teams = 1 + cx.choose(2);
        let r: Vec<(u8, String, String)> = (0..32).map(|i| (i as u8, format!("p{i}"), format!("t{}", i % teams))).collect();
        let (victim, killer) = (cx.choose(32), cx.choose(32));
        let near = cx.flag();
        let v = r[victim].1.clone();
        let tk = Msg::print(1, &format!("{v} was telefragged by his teammate\n"));
        let up = Msg::Frags(killer as u8, -1);
        let hist = if near {
            vec![(Ev::all(1, vec![tk, up]), vec![Score::Unnamed(v)])]
        } else {
            vec![(Ev::all(1, vec![tk]), vec![Score::Unnamed(v)]), (Ev::all(1, vec![Msg::Frags(victim as u8, -1)]), vec![]), (Ev::all(1, vec![up]), vec![])]
        };
        let mut o = Opening::with(r.iter().map(|(s, n, t)| Client::named(*s, n, t)).collect());
        o.slots = 32;
        check_in(cx, &o.frames(), &r, &hist)
    });
    let gaps = scenario("frames without content between", (0, 0), |cx| {
        let n = *cx.pick(&[1usize, 2, 3, 4, 5, 10, 100, 255, 256, 1000, 20000]);
        let kind = *cx.pick(&[6u8, 0, 7, 4]);
        let at = cx.choose(3);
        let r: Vec<(u8, String, String)> = ["ann", "bob", "cyd", "dan"].iter().enumerate().map(|(i, n)| (i as u8, n.to_string(), "red".to_string())).collect();
        let mut hist = vec![
            (Ev::all(1, vec![Msg::print(1, "ann was jumped by his teammate\n")]), vec![Score::Unnamed("ann".into())]),
            (Ev::all(1, vec![Msg::Raw(vec![3, 1, 2])]), vec![]),
            (Ev::all(1, vec![Msg::Frags(1, 1)]), vec![]),
            (Ev::all(1, vec![Msg::Frags(2, 1)]), vec![]),
        ];
        let e = Ev::Silent(Frame::to(1, kind, 0, vec![]));
        for _ in 0..n {
            hist.insert(at + 1, (e.clone(), vec![]));
        }
        let open = opening(&r);
        let mut m = Frags::new(r.clone());
        let mut data = wire::encode(&open);
        for f in &open {
            m.step(&abstract_frame(f), &[]);
        }
        for (e, s) in &hist {
            m.step(e, s);
            e.frame().encode(&mut data);
        }
        cx.step(&(n, kind, at), &m);
        cx.note(|| format!("{n} frames of kind {kind} without content behind frame {at}"));
        let got = real_frags(&data)?;
        cx.compared();
        same("frags", &got, &m.score)
    });
    let many = scenario("accumulation", (0, 0), |cx| {
        let n = *cx.pick(&[50usize, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 3000]);
        let w = cx.choose(6);
        let r: Vec<(u8, String, String)> = ["ann", "bob", "cyd"].iter().enumerate().map(|(i, n)| (i as u8, n.to_string(), "red".to_string())).collect();
        let open = opening(&r);
        let mut m = Frags::new(r.clone());
        let mut data = wire::encode(&open);
        for f in &open {
            m.step(&abstract_frame(f), &[]);
        }
        for i in 0..n {
            let e = Ev::all(1, vec![Msg::print(1, &format!("ann{}\n", obits::UNNAMED_TEAMKILLS[w])), Msg::Frags(1 + (i % 7 == 0) as u8, 1)]);
            m.step(&e, &[Score::Unnamed("ann".into())]);
            e.frame().encode(&mut data);
        }
        cx.step(&(n, w), &m);
        let got = real_frags(&data)?;
        cx.compared();
        same("frags", &got, &m.score)
    });
    let apart = scenario("team kills far into the recording", (0, 0), |cx| {
        let (n1, n2) = (far(cx), far(cx));
        let r: Vec<(u8, String, String)> = ["ann", "bob", "cyd"].iter().enumerate().map(|(i, n)| (i as u8, n.to_string(), "red".to_string())).collect();
        let open = opening(&r);
        let mut m = Frags::new(r.clone());
        let mut data = wire::encode(&open);
        for f in &open {
            m.step(&abstract_frame(f), &[]);
        }
        for n in [n1, n2] {
            data.extend(filler(n).0);
            if n > 0 {
                m.step(&Ev::all(1, vec![Msg::Raw(vec![3, 1, 2])]), &[]);
                m.step(&Ev::all(1, vec![Msg::Raw(vec![3, 1, 2])]), &[]);
                m.step(&Ev::all(1, vec![Msg::Raw(vec![3, 1, 2])]), &[]);
            }
            for (e, s) in [
                (Ev::all(1, vec![Msg::print(1, "ann was jumped by his teammate\n")]), vec![Score::Unnamed("ann".into())]),
                (Ev::all(1, vec![Msg::Frags(2, 1)]), vec![]),
            ] {
                m.step(&e, &s);
                e.frame().encode(&mut data);
            }
        }
        cx.step(&(n1, n2), &m);
        cx.note(|| format!("{n1} bytes of other frames, a team kill, {n2} bytes, a team kill"));
        let got = real_frags(&data)?;
        cx.compared();
        same("frags", &got, &m.score)
    });
    let kinds = scenario("teams of every kind", (0, 0), |cx| {
        // no team at all, empty, marked, coloured, numbered, long
        const TEAMS: [&str; 8] = ["", "red", "Red", "\u{f2}\u{e5}\u{e4}", "0", "\u{10}r\u{11}", "*bot", "abcdefghijklmnopqrstuvwxyz"];
        let a = cx.choose(TEAMS.len());
        let other = cx.choose(TEAMS.len());
        let names = ["ann", "bob", "cyd", "dan"];
        let mut r: Vec<(u8, String, String)> = vec![];
        for i in 0..4 {
            let t = if i == 0 { a } else { [a, other][cx.choose(2)] };
            r.push((i as u8 * 2 + 1, names[i].to_string(), TEAMS[t].to_string()));
        }
        let form = cx.choose(3);
        let mut o = Opening::with(r.iter().map(|(s, n, t)| {
            Client::new(*s, &latin1(&match (t.is_empty(), form) {
                (true, 1) => format!("\\topcolor\\4\\name\\{n}"),
                (true, _) => format!("\\name\\{n}\\topcolor\\4"),
                (_, 0) => format!("\\name\\{n}\\team\\{t}"),
                (_, 1) => format!("\\team\\{t}\\name\\{n}"),
                _ => format!("\\topcolor\\4\\name\\{n}\\*bot\\1\\team\\{t}"),
            }))
        }).collect());
        o.slots = 8;
        let (first, second) = (1 + cx.choose(3), 1 + cx.choose(3));
        let text = format!("ann{}\n", obits::UNNAMED_TEAMKILLS[cx.choose(cx.by(2, 6))]);
        let hist = vec![
            (Ev::all(5, vec![Msg::print(1, &text), Msg::Frags(r[first].0, 3)]), vec![Score::Unnamed("ann".into())]),
            (Ev::all(5, vec![Msg::Frags(r[second].0, 3)]), vec![]),
        ];
        check_in(cx, &o.frames(), &r, &hist)
    });
    prop(vec![place, words, multi, kin, dress, slots, gaps, many, apart, kinds]).assume(&[
        "names are distinct; updates that neither follow the print directly nor open a frame are not promised either way",
        "hidden data blocks count as frames with content in the window (as they do in the code); C04 inserts none there",
    ])
}

// --- C09 -------------------------------------------------------------------------------------

pub fn c09(_t: Tier) -> Prop {
    #[derive(Clone, Debug, Hash)]
    enum F {
        Whole(usize, usize, &'static str),
        Split(usize, usize, &'static str),
        Noise(u8, &'static str),
    }
    fn text(k: usize, c: usize) -> &'static str {
        obits::FLAGS[k].1[c]
    }
    fn build(cx: &mut Ctx, frames: &[Vec<F>], m: &mut Flags, pre: &[Msg]) -> Vec<Ev> {
        let mut evs = vec![];
        for f in frames {
            let mut msgs = pre.to_vec();
            for x in f {
                match x {
                    F::Whole(k, c, n) => {
                        msgs.push(Msg::print(2, &format!("{n}{}", text(*k, *c))));
                        m.add(n, *k);
                    }
                    F::Split(k, c, n) => {
                        msgs.push(Msg::print(2, n));
                        msgs.push(Msg::print(2, text(*k, *c)));
                        m.add(n, *k);
                    }
                    F::Noise(l, t) => msgs.push(Msg::print(*l, t)),
                }
                cx.step(x, m);
            }
            evs.push(Ev::all(3, msgs));
        }
        evs
    }
    fn finish(cx: &mut Ctx, evs: &[Ev], m: &Flags) -> Verdict {
        let data = encode(evs);
        show(cx, evs);
        cx.input(&data);
        let got = real_flags(&data)?;
        cx.compared();
        cx.outcome(&got);
        same("flag tallies", &got, &m.tally)
    }
    let all = scenario("every message, every name", (0, 0), |cx| {
        let k = cx.choose(7);
        let c = cx.choose(2);
        let names = names();
        let n = cx.pick(&names).clone();
        let split = cx.flag();
        if split && k > 2 {
            return Ok(()); // only pickups, captures and returns are written in two parts
        }
        let level = *cx.pick(&[2u8, 0, 1, 3]);
        let noise = cx.choose(4);
        let mut m = Flags::default();
        if level == 2 {
            m.add(&n, k);
        }
        cx.step(&(k, c, &n, split, level), &m);
        let mut msgs = match noise {
            0 => vec![],
            1 => vec![Msg::print(3, "x: my flag!\n")],
            2 => vec![Msg::print(1, "x was nailed by y\n")],
            _ => vec![Msg::Raw(vec![14, 1, 2, 0, 3, 5, 6])],
        };
        if split {
            msgs.push(Msg::print(level, &n));
            msgs.push(Msg::print(level, text(k, c)));
        } else {
            msgs.push(Msg::print(level, &format!("{n}{}", text(k, c))));
        }
        let kind = *cx.pick(&TARGETS);
        finish(cx, &[Ev::Msgs { ms: 1, kind, player: 2, msgs }], &m)
    });
    let near = scenario("texts one step away from a flag message", (0, 0), |cx| {
        let k = cx.choose(7);
        let c = cx.choose(2);
        let chars: Vec<char> = format!("bob{}", text(k, c)).chars().collect();
        let at = cx.choose(chars.len());
        let mut t = chars.clone();
        match cx.choose(6) {
            0 => drop(t.remove(at)),
            1 => t[at] = 'x',
            2 => t[at] = (t[at] as u8 ^ 32) as char,
            3 => t[at] = (t[at] as u8 ^ 128) as char,
            4 => t.truncate(at),
            _ => t.insert(at, 'x'),
        }
        let t: String = t.into_iter().collect();
        if t.contains('\u{0}') || t.is_empty() || obits::FLAGS.iter().any(|f| f.1.iter().any(|n| t.contains(n))) {
            return Ok(());
        }
        let mut m = Flags::default();
        m.add("ann", 1);
        m.add("bob", 4);
        cx.step(&t, &m);
        let evs = [
            Ev::all(1, vec![Msg::print(2, &format!("ann{}", text(1, 0)))]),
            Ev::all(1, vec![Msg::print(2, &t)]),
            Ev::all(1, vec![Msg::print(2, &format!("bob{}", text(4, 0)))]),
        ];
        finish(cx, &evs, &m)
    });
    let speaking = scenario("names made of the messages' words", (0, 0), |cx| {
        let names = [
            "flag", " flag", "flag!", "the", "x the ÒÅÄ flag!", "defends", "x defends the", "x defends", "çïô", "x çïô", "ÒÅÄ", "the ÒÅÄ flag", "defends the ÒÅÄ flag", "x çïô the ÒÅÄ flag!", " ", "x gets an assist for", "his flag!", "x dropped", "ãáðôõòåä",
        ];
        let k = cx.choose(7);
        let c = cx.choose(2);
        let n = *cx.pick(&names);
        let split = cx.flag() && k <= 2;
        let mut m = Flags::default();
        m.add(n, k);
        cx.step(&(k, c, n, split), &m);
        let msgs = if split { vec![Msg::print(2, n), Msg::print(2, text(k, c))] } else { vec![Msg::print(2, &format!("{n}{}", text(k, c)))] };
        finish(cx, &[Ev::all(1, msgs)], &m)
    });
    let hist = scenario("histories, one message per frame", (0, 0), |cx| {
        let n = cx.by(3, 4);
        let mut frames = vec![];
        for _ in 0..n {
            let x = match cx.choose(15) {
                k @ 0..=6 => F::Whole(k, k % 2, "ann"),
                7 => F::Whole(1, 1, "bob"),
                8 => F::Whole(6, 0, "bob"),
                9 => F::Split(0, 1, "ann"),
                10 => F::Split(1, 0, "ann"),
                11 => F::Split(2, 1, "bob"),
                12 => F::Noise(2, "ann dropped the flag\n"),
                13 => F::Noise(3, "ann: who has the flag?\n"),
                _ => F::Noise(2, "flag\n"),
            };
            frames.push(vec![x]);
        }
        let mut m = Flags::default();
        let evs = build(cx, &frames, &mut m, &[]);
        finish(cx, &evs, &m)
    });
    let dress = scenario("whatever frames the messages are in", (0, 0), |cx| {
        let k = cx.choose(7);
        let frames = vec![
            vec![F::Whole(k, 0, "ann")],
            vec![F::Split(k % 3, 1, "bob")],
            vec![F::Noise(2, "ann dropped the flag\n"), F::Whole((k + 1) % 7, 1, "ann")],
            vec![F::Whole(k, 1, "ann")],
        ];
        let mut m = Flags::default();
        let evs = build(cx, &frames, &mut m, &[]);
        let d = dressed(cx, &evs);
        finish(cx, &d, &m)
    });
    let shared = scenario("several messages per frame", (0, 0), |cx| {
        let nf = cx.by(2, 2);
        let mut frames = vec![];
        for i in 0..nf {
            let n = 1 + cx.choose(if i == 0 { 4 } else { 2 });
            let mut f = vec![];
            for _ in 0..n {
                let k = cx.choose(13);
                if k == 11 {
                    // a text of two parts that is no flag message
                    f.push(F::Noise(2, "cyd"));
                    f.push(F::Noise(2, " lost the key!\n"));
                    continue;
                }
                f.push(match k {
                    0 => F::Split(1, 0, "ann"),
                    1 => F::Split(0, 1, "bob"),
                    2 => F::Split(2, 0, "ann"),
                    3 => F::Whole(3, 0, "bob"),
                    4 => F::Whole(4, 1, "ann"),
                    5 => F::Whole(1, 1, "bob"),
                    6 => F::Noise(2, "cyd dropped the flag\n"),
                    7 => F::Noise(2, "hello\n"),
                    8 => F::Noise(2, ""),
                    9 => F::Noise(3, "bob defends the flag\n"),
                    10 => F::Noise(1, "ann died\n"),
                    // a text without a line end
                    _ => F::Noise(2, "the flag"),
                });
            }
            frames.push(f);
        }
        let mut m = Flags::default();
        let evs = build(cx, &frames, &mut m, &[]);
        finish(cx, &evs, &m)
    });
    let between = scenario("other prints between the two parts of a message", (0, 0), |cx| {
        let k = cx.choose(3);
        let c = cx.choose(2);
        let mut m = Flags::default();
        let mut msgs = vec![];
        let noise = [(2u8, ""), (3, "x: flag!\n"), (1, "x died\n"), (0, "flag\n")];
        for _ in 0..cx.choose(3) {
            let (l, t) = *cx.pick(&noise);
            msgs.push(Msg::print(l, t));
        }
        msgs.push(Msg::print(2, "ann"));
        for _ in 0..cx.choose(4) {
            let (l, t) = *cx.pick(&noise);
            msgs.push(Msg::print(l, t));
        }
        msgs.push(Msg::print(2, text(k, c)));
        m.add("ann", k);
        for _ in 0..cx.choose(2) {
            let (l, t) = *cx.pick(&noise);
            msgs.push(Msg::print(l, t));
            msgs.push(Msg::print(2, &format!("bob{}", text(4, c))));
            m.add("bob", 4);
        }
        cx.step(&(k, c), &m);
        finish(cx, &[Ev::all(3, msgs)], &m)
    });
    let two = scenario("two whole messages in one frame", (0, 0), |cx| {
        let mut fs = vec![];
        let n = 2 + cx.choose(2);
        for _ in 0..n {
            let k = cx.choose(7);
            let who = *cx.pick(&["ann", "bob"]);
            fs.push((k, who));
        }
        let mut m = Flags::default();
        let msgs: Vec<Msg> = fs.iter().map(|(k, w)| {
            m.add(w, *k);
            Msg::print(2, &format!("{w}{}", text(*k, 0)))
        }).collect();
        cx.step(&fs, &m);
        let evs = vec![Ev::all(1, msgs)];
        let data = encode(&evs);
        show(cx, &evs);
        cx.input(&data);
        let got = real_flags(&data)?;
        cx.compared();
        cx.outcome(&got);
        same("flag tallies", &got, &m.tally)
    });
    let sums = scenario("accumulation", (0, 0), |cx| {
        let n = *cx.pick(&[127u32, 255, 256, 257, 300, 1000, 65536]);
        let k = cx.choose(7);
        let split = cx.flag() && k <= 2;
        let mut data = vec![];
        for _ in 0..n {
            let msgs = if split { vec![Msg::print(2, "ann"), Msg::print(2, text(k, 0))] } else { vec![Msg::print(2, &format!("ann{}", text(k, 0)))] };
            Ev::all(1, msgs).frame().encode(&mut data);
        }
        let mut t = [0; 7];
        t[k] = n;
        let want: BTreeMap<String, [u32; 7]> = [("ann".to_string(), t)].into();
        cx.step(&(n, k, split), &want);
        cx.note(|| format!("{n} times {:?}", text(k, 0)));
        let got = real_flags(&data)?;
        cx.compared();
        same("flag tallies", &got, &want)
    });
    let kin = scenario("names that are almost the same", (0, 0), |cx| {
        let (a, b) = siblings(cx);
        let k = cx.choose(7);
        let c = cx.choose(2);
        let split = cx.flag() && k <= 2;
        let mut m = Flags::default();
        let mut evs = vec![];
        for n in [a, b, b] {
            m.add(n, k);
            let msgs = if split { vec![Msg::print(2, n), Msg::print(2, text(k, c))] } else { vec![Msg::print(2, &format!("{n}{}", text(k, c)))] };
            let e = Ev::all(1, msgs);
            cx.step(&e, &m);
            evs.push(e);
        }
        finish(cx, &evs, &m)
    });
    let apart = scenario("messages far apart", (0, 0), |cx| {
        let (n1, n2) = (far(cx), far(cx));
        let k = cx.choose(7);
        let split = cx.flag() && k <= 2;
        let mut m = Flags::default();
        let mut data = vec![];
        for n in [n1, n2, 0] {
            let who = if n > 0x1000 { "ann" } else { "bob" };
            m.add(who, k);
            let msgs = if split { vec![Msg::print(2, who), Msg::print(2, text(k, 1))] } else { vec![Msg::print(2, &format!("{who}{}", text(k, 1)))] };
            Ev::all(1, msgs).frame().encode(&mut data);
            data.extend(filler(n).0);
        }
        cx.step(&(n1, n2, k, split), &m);
        cx.note(|| format!("three messages of kind {k}, {n1} and {n2} bytes of other frames between"));
        let got = real_flags(&data)?;
        cx.compared();
        same("flag tallies", &got, &m.tally)
    });
    let crowd = scenario("many players", (0, 0), |cx| {
        let n = *cx.pick(&[2usize, 16, 17, 31, 32, 33, 64, 255, 256, 257, 1000]);
        let k = cx.choose(7);
        let mut m = Flags::default();
        let mut data = vec![];
        for i in 0..n {
            let who = format!("p{i}");
            for j in 0..1 + i % 3 {
                m.add(&who, (k + j) % 7);
                Ev::all(1, vec![Msg::print(2, &format!("{who}{}", text((k + j) % 7, i % 2)))]).frame().encode(&mut data);
            }
        }
        cx.step(&(n, k), &m);
        let got = real_flags(&data)?;
        cx.compared();
        same("flag tallies", &got, &m.tally)
    });
    let eight = scenario("a stat update with index 8 in front", (0, 0), |cx| {
        // known finding K3: such frames are scanned byte by byte, and the index reads as a print
        let k = cx.choose(7);
        let split = cx.flag() && k <= 2;
        let value = *cx.pick(&[100u8, 7, 255]);
        let mut msgs = vec![Msg::Raw(vec![3, 8, value])];
        if split {
            msgs.push(Msg::print(2, "ann"));
            msgs.push(Msg::print(2, text(k, 0)));
        } else {
            msgs.push(Msg::print(2, &format!("ann{}", text(k, 0))));
        }
        let mut m = Flags::default();
        m.add("ann", k);
        cx.step(&(k, split, value), &m);
        let evs = vec![Ev::all(1, msgs)];
        let data = encode(&evs);
        show(cx, &evs);
        cx.input(&data);
        let got = real_flags(&data)?;
        cx.compared();
        cx.outcome(&got);
        if got == m.tally {
            return Ok(());
        }
        // the listed behaviour: the first print is swallowed
        let mut k3 = Flags::default();
        if split {
            k3.add("", k);
        }
        if got == k3.tally {
            return Err(Fail::Known("K3"));
        }
        same("flag tallies", &got, &m.tally)
    });
    prop(vec![all, near, speaking, hist, dress, shared, between, two, eight, sums, kin, apart, crowd]).assume(&[
        "other messages in front of a flag message in the same frame contain no byte 8 (the code scans such frames byte by byte)",
        "names do not contain a flag wording",
    ])
}

// --- C10 -------------------------------------------------------------------------------------

pub fn c10(_t: Tier) -> Prop {
    fn check(cx: &mut Ctx, evs: &[Ev]) -> Verdict {
        let mut m = Pings::default();
        for e in evs {
            m.step(e);
            cx.step(e, &m);
        }
        let data = encode(evs);
        show(cx, evs);
        cx.input(&data);
        let got = real_pings(&data)?;
        cx.compared();
        cx.outcome(&got);
        same("pings", &got, &m.result())
    }
    fn frame(cx: &mut Ctx, small: bool) -> Ev {
        let vals = [1u16, 12, 65535, 0, 999];
        let n = if small { 3 } else { 5 };
        match cx.choose(if small { 7 } else { 9 }) {
            0 => Ev::all(10, vec![Msg::Ping(0, vals[cx.choose(n)]), Msg::Ping(3, vals[cx.choose(n)])]),
            1 => Ev::all(10, vec![Msg::Ping(3, vals[cx.choose(n)])]),
            2 => Ev::all(10, vec![Msg::Ping(0, 40), Msg::Ping(0, 41), Msg::Frags(0, 1), Msg::Ping(0, 5000)]),
            3 => Ev::all(10, vec![Msg::print(2, "x"), Msg::Ping(0, 500)]),
            4 => Ev::all(10, vec![]),
            5 => Ev::Silent(Frame::hidden(10, 7, 0, &[1, 2])),
            6 => Ev::Msgs { ms: 1, kind: 4, player: 3, msgs: vec![Msg::Ping(31, 77)] },
            7 => Ev::Msgs { ms: 1, kind: 3, player: 3, msgs: vec![Msg::Ping(31, vals[cx.choose(n)]), Msg::Raw(vec![34])] },
            _ => Ev::all(255, (0..32).map(|i| Msg::Ping(i, 3 * i as u16)).collect()),
        }
    }
    let seqs = scenario("sample sequences", (0, 0), |cx| {
        let n = cx.by(3, 4);
        let evs: Vec<Ev> = (0..n).map(|_| frame(cx, false)).collect();
        check(cx, &evs)
    });
    let limit = scenario("around the sample limit", (2, 3), |cx| {
        // up to 11 frames, by default all samples; deviations replace frames
        let n = 6 + cx.choose(6);
        let base = *cx.pick(&[10u16, 65535, 33]);
        let mut evs = vec![];
        for i in 0..n {
            let e = match cx.deviate(8) {
                0 => Ev::all(10, vec![Msg::Ping(0, base), Msg::Ping(3, base.saturating_sub(i as u16))]),
                1 => Ev::all(10, vec![Msg::Ping(3, 7)]),
                2 => Ev::all(10, vec![]),
                3 => Ev::all(10, vec![Msg::Frags(0, 1), Msg::Ping(0, 600)]),
                4 => Ev::all(10, vec![Msg::Ping(0, 1), Msg::Ping(0, 2), Msg::Ping(0, 3)]),
                5 => Ev::Silent(Frame::to(1, 2, 3, vec![])),
                6 => Ev::all(10, vec![Msg::Ping(9, 65535)]),
                _ => Ev::all(10, vec![Msg::Ping(0, 0), Msg::print(2, "x")]),
            };
            evs.push(e);
        }
        check(cx, &evs)
    });
    let dress = scenario("whatever frames the samples are in, and whatever is lost", (0, 0), |cx| {
        let n = *cx.pick(&[2u16, 3, 8, 10]);
        let evs: Vec<Ev> = (0..n).map(|i| if i == 1 { Ev::all(9, vec![Msg::print(2, "x"), Msg::Ping(0, 900)]) } else { Ev::all(9, vec![Msg::Ping(0, 20 + 31 * i), Msg::Ping(3, 50), Msg::Ping(17, 999 - i)]) }).collect();
        let mut m = Pings::default();
        for e in &evs {
            m.step(e);
            cx.step(e, &m);
        }
        let d = dressed(cx, &evs);
        show(cx, &d);
        let data = encode(&d);
        cx.input(&data);
        let got = real_pings(&data)?;
        cx.compared();
        cx.outcome(&got);
        same("pings", &got, &m.result())
    });
    let avg = scenario("averages", (0, 0), |cx| {
        // all multisets (as sequences) of up to 4 values; rounding is down
        let n = 1 + cx.choose(cx.by(4, 5));
        let vals = [0u16, 1, 2, 3, 65534, 65535];
        let evs: Vec<Ev> = (0..n).map(|_| Ev::all(1, vec![Msg::Ping(5, *cx.pick(&vals))])).collect();
        check(cx, &evs)
    });
    let slots = scenario("every slot and many values", (0, 0), |cx| {
        let s = cx.choose(32) as u8;
        let v = (cx.choose(257) * 255) as u16;
        let evs = vec![Ev::all(1, vec![Msg::Ping(s, v), Msg::Ping((s + 1) % 32, 1)]), Ev::all(1, vec![Msg::Ping(s, v.wrapping_add(1))])];
        check(cx, &evs)
    });
    let crowd = scenario("crowded frames", (0, 0), |cx| {
        // many updates of one player in one sample frame
        let n = *cx.pick(&[1usize, 255, 256, 257, 1000, 70000]);
        let v = *cx.pick(&[0u16, 1, 65535]);
        let evs = vec![Ev::all(1, vec![Msg::Ping(2, v); n]), Ev::all(1, vec![Msg::Ping(2, 1)])];
        let mut m = Pings::default();
        for e in &evs {
            m.step(e);
        }
        cx.step(&(n, v), &m);
        cx.note(|| format!("{n} updates of {v} in one frame"));
        let data = encode(&evs);
        let got = real_pings(&data)?;
        cx.compared();
        same("pings", &got, &m.result())
    });
    let apart = scenario("samples far apart", (0, 0), |cx| {
        let n = far(cx);
        let k = 1 + cx.choose(9);
        let at = cx.choose(k);
        let mut m = Pings::default();
        let mut data = vec![];
        for i in 0..k {
            if i == at || i == 3 {
                data.extend(filler(n).0);
            }
            let e = Ev::all(1, vec![Msg::Ping(1, 100 + 7 * i as u16), Msg::Ping(2 + i as u8 % 3, 20)]);
            m.step(&e);
            e.frame().encode(&mut data);
        }
        cx.step(&(n, k, at), &m);
        cx.note(|| format!("{k} samples, {n} bytes of other frames in front of sample {at} and the fourth"));
        let got = real_pings(&data)?;
        cx.compared();
        same("pings", &got, &m.result())
    });
    let crew = scenario("many players", (0, 0), |cx| {
        // n players, whose samples differ, over k frames
        let n = *cx.pick(&[1usize, 2, 8, 15, 16, 17, 24, 31, 32, 33, 64, 255, 256]);
        let k = 1 + cx.choose(10);
        let step = *cx.pick(&[1u16, 37, 1000]);
        let mut m = Pings::default();
        let mut evs = vec![];
        for i in 0..k {
            let e = Ev::all(1, (0..n).map(|p| Msg::Ping(p as u8, (p as u16).wrapping_mul(step).wrapping_add(i as u16 * 3))).collect());
            m.step(&e);
            evs.push(e);
        }
        cx.step(&(n, k, step), &m);
        let data = encode(&evs);
        let got = real_pings(&data)?;
        cx.compared();
        same("pings", &got, &m.result())
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, evs)) = demo_choice(cx) else { return Ok(()) };
        let mut m = Pings::default();
        for e in evs {
            m.step(e);
        }
        cx.step(&d.len(), &m);
        let got = real_pings(d)?;
        cx.compared();
        same("pings", &got, &m.result())
    });
    prop(vec![seqs, limit, dress, avg, slots, crowd, conf, apart, crew]).assume(&["every ping update is followed by its packet-loss update, as the server writes them"])
}

// --- C04 -------------------------------------------------------------------------------------

/// everything the library says about a recording, except durations
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct View {
    pub prints: Vec<(u8, Vec<u8>)>,
    pub frags: BTreeMap<String, i32>,
    pub flags: BTreeMap<String, [u32; 7]>,
    pub pings: Option<BTreeMap<u8, u32>>,
    pub rest: Vec<(&'static str, String)>,
}

pub fn view(data: &[u8]) -> Result<View, Fail> {
    use mvdparser::all::*;
    let mut rest = vec![];
    macro_rules! put {
        ($n:literal, $e:expr) => {
            rest.push(($n, api($n, || format!("{:?}", $e))?))
        };
    }
    put!("clientinfo_strings", clientinfo_strings(data).ok());
    put!("clients", clients(data).ok());
    put!("player_names", player_names(data).ok());
    put!("spectator_names", spectator_names(data).ok());
    put!("team_names", team_names(data).ok());
    put!("players", players(data).ok());
    put!("teams", teams(data).ok());
    put!("timestamp", timestamp(data).ok());
    put!("matchdate_string", matchdate_string(data).ok());
    put!("server", server(data).ok());
    put!("ktxstats_string", ktxstats_string(data).ok());
    put!("serverinfo_string", serverinfo_string(data).ok());
    put!("filename", mvdparser::filename(data).ok());
    put!("is_valid", is_valid(data));
    put!("is_aborted", is_aborted(data));
    put!("is_paused", mvdparser::is_paused(data));
    put!("has_bot_players", has_bot_players(data).ok());
    put!("has_human_players", has_human_players(data).ok());
    Ok(View { prints: real_prints(data)?, frags: real_frags(data)?, flags: real_flags(data)?, pings: real_pings(data)?, rest })
}

/// a view with the durations, by name
fn facts(data: &[u8]) -> Result<Vec<(&'static str, String)>, Fail> {
    use mvdparser::*;
    let v = view(data)?;
    let mut out = v.rest;
    out.push(("prints", format!("{:?}", v.prints)));
    out.push(("frags", format!("{:?}", v.frags)));
    out.push(("flags", format!("{:?}", v.flags)));
    out.push(("pings", format!("{:?}", v.pings)));
    out.push(("demo_duration", api("demo_duration", || format!("{:?}", demo_duration(data).ok()))?));
    out.push(("countdown_duration", api("countdown_duration", || format!("{:?}", countdown_duration(data).ok()))?));
    out.push(("match_duration", api("match_duration", || format!("{:?}", match_duration(data).ok()))?));
    Ok(out)
}

pub fn diff_views(a: &View, b: &View) -> Verdict {
    same("prints", &b.prints, &a.prints)?;
    same("frags", &b.frags, &a.frags)?;
    same("flag tallies", &b.flags, &a.flags)?;
    same("pings", &b.pings, &a.pings)?;
    for ((n, x), (_, y)) in a.rest.iter().zip(&b.rest) {
        same(n, y, x)?;
    }
    Ok(())
}

/// frames that carry nothing any fact is read from
pub fn noise_frames() -> Vec<Frame> {
    let mut v = vec![
        Frame::to(0, 7, 0, vec![]),
        Frame::to(0, 0, 31, vec![]),
        Frame::all(0, vec![]),
        Frame::all(0, vec![3, 1, 2]),                      // stat
        Frame::to(0, 4, 2, vec![42, 2, 0, 0, 9, 9, 9]),    // player info
        Frame::to(0, 5, 31, vec![38, 1, 1, 2, 3, 4]),      // long stat
        Frame::to(0, 3, 4, vec![19, 1, 5, 0, 0, 0, 0, 0, 0]), // damage
        Frame::to(0, 1, 0, vec![6, 0, 1, 2, 3]),           // sound
        Frame::all(0, [&[26u8][..], b"Countdown\0"].concat()), // centre print
        Frame::all(0, [&[26u8][..], b"The match is now paused\0"].concat()),
        Frame::all(0, msg::stufftext(b"echo The match is near\n")),
        Frame::all(0, msg::stufftext(b"//cmd spaw\n")),
        Frame::all(0, msg::serverinfo(b"status", b"Standb")),
        Frame::all(0, msg::serverinfo(b"matchdate", b"now")),
        Frame::all(0, vec![34, 35]),                       // kicks
        Frame::all(0, [&[37u8, 1][..], &[0, 0, 128, 63]].concat()),
        Frame::all(0, vec![1; 40]),
        Frame::all(0, vec![0xff; 300]),
    ];
    // sequence numbers whose bytes look like messages
    for (a, b) in [(0u32, 0u32), (0x0041_0208, 0), (0x01f4_0024, 0x0000_0035), (0x0005_000e, 0), (0x6100_0108, 0)] {
        v.push(Frame { ms: 0, body: wire::Body::Set(a, b) });
    }
    // hidden data whose length field, and hence first bytes, look like messages: 8 print, 14 frags, 36 ping
    for len in [0usize, 1, 6, 7, 12, 34, 51, 255, 0x0108 - 2, 0x0208 - 2, 0x0308 - 2, 0x010e - 2, 0x0224 - 2] {
        for typ in [0u16, 7, 2] {
            v.push(Frame::hidden(0, typ, 1, &vec![b'A' ^ (typ as u8); len]));
        }
    }
    // prints, flag messages and pings inside hidden data, at the very start
    let mut p = msg::print(1, b"b was nailed by a\n");
    p.extend(msg::print(2, b"zed"));
    v.push(Frame::hidden_raw(0, p));
    let mut p = msg::print(2, &latin1("zed defends the ÒÅÄ flag\n"));
    p.extend(msg::frags(1, 3));
    v.push(Frame::hidden_raw(0, p));
    v.push(Frame::hidden_raw(0, msg::ping(0, 400, 0)));
    v.push(Frame::hidden_raw(0, msg::ping(9, 400, 0)));
    v.push(Frame::hidden_raw(0, msg::frags(1, 9)));
    v
}

/// noise frames for long runs
fn long_noise() -> Vec<Frame> {
    vec![
        Frame::to(0, 7, 0, vec![]),
        Frame::all(0, vec![3, 1, 2]),
        Frame::to(0, 4, 2, vec![42, 2, 0, 0, 9, 9, 9]),
        Frame { ms: 0, body: wire::Body::Set(7, 9) },
        Frame::hidden(0, 7, 1, &[1, 2, 3]),
    ]
}

/// Base histories for C04: the parts of a game, with enough ping frames to tell a lost or extra sample.
pub fn base_history(which: usize) -> (Vec<Frame>, Vec<(Ev, bool)>) {
    // (frame, true if no insertion is promised to be neutral right after it)
    let mut o = Opening::with(vec![
        Client::new(0, &latin1("\\name\\ann\\team\\red\\topcolor\\4\\bottomcolor\\4")),
        Client::new(1, &latin1("\\team\\red\\name\\bob\\topcolor\\4\\bottomcolor\\4\\*auth\\bobby")),
        Client::new(3, &latin1("\\name\\cyd\\team\\blue\\topcolor\\13\\bottomcolor\\13")),
        Client::new(4, &latin1("\\name\\dan\\team\\blue\\*bot\\1")),
        Client::new(6, &latin1("\\name\\spec\\*spectator\\1")),
    ]);
    o.slots = 8;
    o.serverinfo = b"\\maxfps\\77\\mode\\2on2\\map\\dm2\\serverdemo\\x.mvd\\status\\Countdown".to_vec();
    let mut v: Vec<(Ev, bool)> = vec![];
    let p = |l: u8, t: &str| Msg::print(l, t);
    v.push((Ev::all(10, vec![Msg::Ping(0, 10), Msg::Ping(1, 21), Msg::Ping(3, 33)]), false));
    v.push((Ev::all(20, vec![p(2, "matchdate: 2024-11-18 21:35:06 CET\n")]), false));
    v.push((Ev::all(5, vec![p(2, "a"), p(2, "b"), p(2, "b")]), false));
    v.push((Ev::all(5, vec![p(2, "b"), p(1, "ann was nailed by cyd\n"), Msg::Frags(3, 1)]), false));
    v.push((Ev::all(7, vec![p(1, "dan suicides\n")]), false));
    match which {
        0 => {
            v.push((Ev::all(7, vec![p(1, "bob was telefragged by his teammate\n"), Msg::Frags(0, -1)]), true));
            v.push((Ev::all(7, vec![Msg::Frags(1, 0)]), true));
            v.push((Ev::all(7, vec![Msg::Ping(0, 20), Msg::Ping(1, 22)]), false));
        }
        1 => {
            for i in 0..8 {
                v.push((Ev::all(9, vec![Msg::Ping(0, 10 + 10 * i), Msg::Ping(3, 50)]), false));
            }
        }
        _ => {
            v.push((Ev::all(7, vec![p(2, "ann"), p(2, " çïô the ÒÅÄ flag!\n")]), false));
            v.push((Ev::all(7, vec![p(2, "bob defends the ÂÌÕÅ flag\n")]), false));
            v.push((Ev::all(7, vec![p(2, "ann"), p(2, " ãáðôõòåä the ÒÅÄ flag!\n"), Msg::Frags(0, 16)]), false));
        }
    }
    v.push((Ev::all(11, vec![p(2, "The match is over\n")]), false));
    v.push((Ev::all(0, vec![Msg::Raw(msg::serverinfo(b"status", b"Standby"))]), false));
    if which == 1 {
        for f in wire::report_frames(b"{\"version\": 3, \"hostname\": \"h\", \"ip\": \"1.2.3.4\", \"port\": 1, \"duration\": 5, \"players\": [{\"name\": \"ann\", \"team\": \"red\", \"ping\": 10}]}\n", &[40, 90]) {
            v.push((Ev::Silent(f), true));
        }
        v.last_mut().unwrap().1 = false;
    }
    (o.frames(), v)
}

pub fn c04(_t: Tier) -> Prop {
    struct Base {
        frames: Vec<(Frame, bool)>,
        view: Result<View, String>,
        opening: usize,
    }
    let bases: Arc<OnceLock<Vec<Base>>> = Arc::new(OnceLock::new());
    let get = |b: &Arc<OnceLock<Vec<Base>>>| -> &'static Vec<Base> {
        let v = b.get_or_init(|| {
            (0..3).map(|w| {
                let (open, evs) = base_history(w);
                let n = open.len();
                let mut frames: Vec<(Frame, bool)> = open.into_iter().map(|f| (f, false)).collect();
                frames.extend(evs.iter().map(|(e, x)| (e.frame(), *x)));
                frames.push((wire::end_of_demo(), true));
                let data = wire::encode(&frames.iter().map(|f| f.0.clone()).collect::<Vec<_>>());
                let view = view(&data).map_err(|e| format!("{e:?}"));
                Base { frames, view, opening: n }
            }).collect()
        });
        unsafe { &*(v as *const Vec<Base>) }
    };
    let keep: &'static Arc<OnceLock<Vec<Base>>> = Box::leak(Box::new(bases));
    let run = move |cx: &mut Ctx, inserts: usize, ms_all: bool| -> Verdict {
        let bs = get(keep);
        let b = &bs[cx.choose(bs.len())];
        let want = match &b.view {
            Ok(v) => v,
            Err(e) => return bad(e.clone()),
        };
        let noise = noise_frames();
        let mut frames: Vec<Frame> = b.frames.iter().map(|f| f.0.clone()).collect();
        // positions where an insertion is promised to be neutral: after frame i
        let pos: Vec<usize> = (0..b.frames.len()).filter(|i| !b.frames[*i].1 && *i + 1 >= 3).collect();
        let mut extra = 0u64;
        let mut before = vec![]; // for the time model
        let mut last = pos.len();
        for _ in 0..inserts {
            let at = cx.choose(last);
            last = at + 1;
            // pairs in the quick tier: every class of noise, not every size of it
            let stride = if inserts > 1 { cx.by(4, 1) } else { 1 };
            let mut f = noise[cx.choose(noise.len().div_ceil(stride)) * stride].clone();
            f.ms = if ms_all { *cx.pick(&[0u8, 3]) } else { 3 };
            extra += f.ms as u64;
            let i = pos[at] + 1;
            // inside the opening only empty frames and hidden data of a size that keeps it compact
            if i < b.opening && f.len() > 80 {
                return Ok(());
            }
            cx.step(&(at, &f), &(i, extra));
            cx.note(|| format!("inserted after frame {}: {}", pos[at], Ev::Silent(f.clone()).show()));
            before.push((i, f.ms as u64));
            frames.insert(i, f);
        }
        let data = wire::encode(&frames);
        cx.input(&data);
        let got = view(&data)?;
        cx.compared();
        cx.outcome(&hash(&got));
        diff_views(want, &got)?;
        // time: the inserted frames add exactly their own time
        let mut t = Time::default();
        for f in &frames {
            let mut marks = vec![];
            if let Some(bd) = f.messages() {
                if bd.windows(17).any(|w| w == b"The match is over") {
                    marks.push(Mark::Over)
                }
                if bd.windows(11).any(|w| w == b"matchdate: ") {
                    marks.push(Mark::Matchdate)
                }
            }
            t.step(f.ms, &marks);
        }
        verdict_durations(cx, false, &data, &t)
    };
    use crate::engine::hash;
    let one = scenario("one insertion", (0, 0), move |cx| run(cx, 1, true));
    let two = scenario("two insertions", (0, 0), move |cx| {
        if cx.quick() {
            // every pair of positions with noise from every class
            return run_two(cx, &run);
        }
        run(cx, 2, false)
    });
    let flood = scenario("a noise frame between all frames", (0, 0), move |cx| {
        let bs = get(keep);
        let b = &bs[cx.choose(bs.len())];
        let want = match &b.view {
            Ok(v) => v,
            Err(e) => return bad(e.clone()),
        };
        let noise = noise_frames();
        let k = cx.choose(noise.len());
        let reps = *cx.pick(&[1usize, 2, 9]);
        let mut frames = vec![];
        for (i, (f, x)) in b.frames.iter().enumerate() {
            frames.push(f.clone());
            if !x && i >= b.opening {
                for _ in 0..reps {
                    frames.push(noise[k].clone());
                }
            }
        }
        cx.step(&(k, reps), &frames.len());
        cx.note(|| format!("{reps} times {} after every frame", Ev::Silent(noise[k].clone()).show()));
        let data = wire::encode(&frames);
        cx.input(&data);
        let got = view(&data)?;
        cx.compared();
        diff_views(want, &got)
    });
    let stretch = scenario("a long run of noise frames", (0, 0), move |cx| {
        let bs = get(keep);
        let b = &bs[cx.choose(bs.len())];
        let want = match &b.view {
            Ok(v) => v,
            Err(e) => return bad(e.clone()),
        };
        let kinds = long_noise();
        let f = cx.pick(&kinds).clone();
        let n = *cx.pick(&[70_000usize, 5000, 1000, 257, 100]);
        let n = if n == 70_000 && cx.flag() { cx.by(400_000, 2_000_000) } else { n };
        let pos: Vec<usize> = (b.opening - 1..b.frames.len()).filter(|i| !b.frames[*i].1).collect();
        let at = *cx.pick(&pos) + 1;
        cx.step(&(n, at), &f);
        cx.note(|| format!("{n} times {} after frame {}", Ev::Silent(f.clone()).show(), at - 1));
        let part = |r: &[(Frame, bool)]| wire::encode(&r.iter().map(|f| f.0.clone()).collect::<Vec<_>>());
        let mut data = part(&b.frames[..at]);
        let mut one = vec![];
        f.encode(&mut one);
        for _ in 0..n {
            data.extend_from_slice(&one);
        }
        data.extend(part(&b.frames[at..]));
        if n <= 257 {
            cx.input(&data);
        }
        let got = view(&data)?;
        cx.compared();
        diff_views(want, &got)
    });
    // known finding K4: what is searched for in raw bytes is found in internal data, too
    let texts = scenario("searched texts inside internal data", (0, 0), move |cx| {
        const ROSTER: &[&str] = &[
            "clientinfo_strings", "clients", "player_names", "spectator_names", "team_names", "players", "teams", "has_bot_players", "has_human_players", "frags", "is_valid",
        ];
        let end: &[&str] = &["demo_duration", "match_duration"];
        let stopped = latin1("Íáôãè óôïððåä âù íáêïòéôù öïôå\n");
        let all: [(Vec<u8>, &[&str]); 9] = [
            (msg::print(2, b"matchdate: 2022-01-02 03:04:05 CET\n"), &["matchdate_string", "timestamp", "countdown_duration", "match_duration"]),
            (msg::print(2, b"The match is over\n"), end),
            (msg::serverinfo(b"status", b"Standby"), end),
            (msg::print(2, &stopped), &["is_aborted"]),
            (b"Server is paused".to_vec(), &["is_paused"]),
            (b"zed paused the game".to_vec(), &["is_paused"]),
            (b"\"bot\": {".to_vec(), &["has_bot_players"]),
            (b"{\"version\": 3, \"duration\": 5, \"players\": []}".to_vec(), &["ktxstats_string", "players", "teams", "server", "match_duration", "has_bot_players"]),
            (msg::userinfo(7, 1, b"\\name\\zed\\team\\zzz"), ROSTER),
        ];
        let bs = get(keep);
        let b = &bs[cx.choose(bs.len())];
        let whole = cx.flag();
        let (text, affected) = &all[cx.choose(all.len())];
        let lead = *cx.pick(&[&b""[..], &[0], &[1, 2, 3, 4, 5, 6, 7], &[8, 2]]);
        let inner = [lead, text, &[0, 0]].concat();
        let f = match cx.choose(3) {
            0 => Frame::hidden(0, 7, 1, &inner),
            1 => Frame::hidden(0, 2, 0, &inner),
            _ => Frame::hidden_raw(0, inner),
        };
        let pos: Vec<usize> = (b.opening - 1..b.frames.len()).filter(|i| !b.frames[*i].1).collect();
        let at = *cx.pick(&pos) + 1;
        let mut frames: Vec<Frame> = b.frames.iter().map(|f| f.0.clone()).collect();
        if !whole {
            // without the end
            frames.pop();
        }
        let before = facts(&wire::encode(&frames))?;
        cx.step(&(at, &f), &(whole, &before));
        cx.note(|| format!("inserted after frame {}: {}", at - 1, Ev::Silent(f.clone()).show()));
        if at > frames.len() {
            return Ok(());
        }
        frames.insert(at, f);
        let data = wire::encode(&frames);
        cx.input(&data);
        let got = facts(&data)?;
        cx.compared();
        let mut seen = false;
        for ((n, x), (_, y)) in before.iter().zip(&got) {
            if x != y {
                if !affected.contains(n) {
                    same(n, y, x)?;
                }
                seen = true;
            }
        }
        if seen { Err(Fail::Known("K4")) } else { Ok(()) }
    });
    prop(vec![one, two, flood, stretch, texts]).assume(&[
        "insertions after the print of an unnamed team kill, within the frames the attribution looks at, are excluded, as are insertions between the blocks of the stats report",
        "only in its last scenario does noise contain the texts that the library searches for in raw bytes (known finding K4)",
    ])
}

fn run_two(cx: &mut Ctx, run: &(impl Fn(&mut Ctx, usize, bool) -> Verdict + Copy)) -> Verdict {
    run(cx, 2, false)
}

#[allow(unused)]
fn unused() {
    let _ = (unlatin1(b""), Score::None);
}
