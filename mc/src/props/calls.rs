//! C20, C21: the same recording gives the same answer, whatever surrounds the call.
use super::faults::compact_bytes;
use super::observe::FUNCS;
use super::*;
use crate::engine::scenario;
use crate::guard::World;
use crate::real;
use crate::wire::{self, latin1, msg, Client, Frame, Opening};
use std::cell::RefCell;
use std::collections::HashMap;
use std::process::Command;
use std::sync::OnceLock;

pub fn result(f: usize, d: &[u8]) -> String {
    match guard::call(|| FUNCS[f].1(d)) {
        Ok(s) => s,
        Err(p) => format!("panicked: {p}"),
    }
}

// --- C20 -------------------------------------------------------------------------------------

/// Everything around a call that must not matter.
#[derive(Clone, Copy)]
struct Around {
    seed: u64,
    world: World,
    /// where the bytes lie: distance from an aligned address
    shift: usize,
    /// what the heap looks like before the call
    heap: usize,
    stack: usize,
    /// the thread may use one processor only
    pinned: bool,
    name: usize,
}

const THREADS: [&str; 3] = ["", "main", "tokio-runtime-worker"];

fn pin() {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
            if let Some(c) = (0..libc::CPU_SETSIZE as usize).find(|c| libc::CPU_ISSET(*c, &set)) {
                libc::CPU_ZERO(&mut set);
                libc::CPU_SET(c, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
        }
    }
}

const PLAIN: Around = Around { seed: 1, world: World { realtime: None, leaps: false, env: None, files: None }, shift: 0, heap: 0, stack: 1 << 20, pinned: false, name: 0 };

/// All functions in a thread of their own.
fn fresh(d: &[u8], a: Around, keys: &[String]) -> (Vec<String>, Vec<String>) {
    let slot = guard::slot();
    std::thread::scope(|s| {
        let b = std::thread::Builder::new().stack_size(a.stack);
        let b = if a.name > 0 { b.name(THREADS[a.name].to_string()) } else { b };
            b.spawn_scoped(s, move || {
                guard::use_slot(slot);
                if a.pinned {
                    pin();
                }
                guard::set_seed(a.seed);
                let mut buf = vec![0xAAu8; a.shift + d.len() + 16];
                buf[a.shift..a.shift + d.len()].copy_from_slice(d);
                let mut holes: Vec<Box<[u8; 40]>> = vec![];
                let mut keep = vec![];
                for i in 0..a.heap * 64 {
                    if i % 3 == 0 { keep.push(Box::new([0u8; 40])) } else { holes.push(Box::new([0u8; 40])) }
                }
                holes.reverse();
                drop(holes);
                guard::set_world(a.world);
                let r: Vec<String> = (0..FUNCS.len()).map(|f| result(f, &buf[a.shift..a.shift + d.len()])).collect();
                guard::set_world(World::default());
                // the order that a map with the recording's names has in this thread
                let probe: HashMap<&str, ()> = keys.iter().map(|k| (k.as_str(), ())).collect();
                let order = probe.keys().map(|k| k.to_string()).collect();
                drop(keep);
                (r, order)
            })
            .expect("thread")
            .join()
            .expect("thread")
    })
}

thread_local! {
    static PLAIN_RESULTS: RefCell<(u64, std::rc::Rc<Vec<String>>)> = RefCell::new((0, Default::default()));
}

fn plain(d: &[u8]) -> std::rc::Rc<Vec<String>> {
    let h = crate::engine::hash(d) | 1;
    PLAIN_RESULTS.with(|p| {
        if p.borrow().0 != h {
            *p.borrow_mut() = (h, std::rc::Rc::new(fresh(d, PLAIN, &[]).0));
        }
        p.borrow().1.clone()
    })
}

fn check_around(cx: &mut Ctx, d: &[u8], a: Around, keys: &[String], what: String) -> Verdict {
    cx.input(d);
    let want = plain(d);
    let (got, order) = fresh(d, a, keys);
    cx.compared();
    cx.count("results_compared", got.len() as u64);
    cx.note(|| what.clone());
    let state = (crate::engine::hash(d), &order, a.seed, &what);
    cx.step(&what, &state);
    cx.outcome(&(crate::engine::hash(&got), order));
    for (f, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        if g != w {
            return bad(format!("{}: {} with {what}, {} with hash seed 1 and nothing else changed", FUNCS[f].0, clip(g.clone()), clip(w.clone())));
        }
    }
    Ok(())
}

/// A recording whose lists have ties wherever they can have one.
fn tied(players: &[(usize, usize)], report: bool, frags: bool) -> (Vec<u8>, Vec<String>) {
    const NAMES: [&str; 3] = ["a", "A", "b"];
    const TEAMS: [&str; 3] = ["r", "R", "\u{f2}"]; // the last reads "r" in the other colour
    let mut o = Opening { slots: 5, styles: 0, ..Default::default() };
    let mut keys: Vec<String> = vec![];
    for (i, (n, t)) in players.iter().enumerate() {
        o.clients.push(Client::new(i as u8, &latin1(&format!("\\name\\{}{}\\team\\{}\\topcolor\\{i}", NAMES[*n], if i > 2 { "x" } else { "" }, TEAMS[*t]))));
        keys.push(format!("{}{i}", NAMES[*n]));
    }
    o.clients.push(Client::new(4, b"\\name\\a\\*spectator\\1"));
    let mut f = o.frames();
    if frags {
        f.push(Frame::all(3, [msg::print(1, b"a suicides\n"), msg::print(1, b"b suicides\n"), msg::print(1, b"A suicides\n")].concat()));
        f.push(Frame::all(3, players.iter().enumerate().flat_map(|(i, _)| msg::ping(i as u8, 10 + i as u16, 0)).collect()));
        f.push(Frame::all(3, [msg::print(2, &latin1("a defends the ÒÅÄ flag\n")), msg::print(2, &latin1("A defends the ÒÅÄ flag\n"))].concat()));
        f.push(Frame::all(3, msg::print(2, b"matchdate: 2024-11-18 21:35:06 CET\n")));
    }
    if report {
        let p: Vec<String> = players
            .iter()
            .enumerate()
            .map(|(i, (n, t))| format!("{{\"name\": \"{}\", \"team\": \"{}\", \"ping\": 5, \"top-color\": {i}, \"stats\": {{\"frags\": 3}}}}", NAMES[*n], TEAMS[*t]))
            .collect();
        f.extend(wire::report_frames(format!("{{\"version\": 3, \"duration\": 3, \"players\": [{}]}}", p.join(",")).as_bytes(), &[50]));
    }
    f.push(wire::end_of_demo());
    (wire::encode(&f), keys)
}

const DATES: [(i64, i64); 7] = [(0, 0), (1_711_846_799, 999_999_999), (1_730_595_600, 0), (1_735_689_599, 999_999_999), (2_147_483_648, 1), (4_294_967_296, 123_456_789), (-86_400, 0)];
const ENVS: [Option<&std::ffi::CStr>; 9] = [None, Some(c"1"), Some(c""), Some(c"UTC-5"), Some(c"tr_TR.ISO-8859-9"), Some(c"/nowhere"), Some(c"America/Halifax"), Some(c"C"), Some(c"false")];
const PLACES: [&std::ffi::CStr; 16] = [
    c"America/Halifax", c"America/New_York", c"America/Chicago", c"America/Sao_Paulo", c"Asia/Riyadh", c"Asia/Kolkata", c"Asia/Shanghai", c"Asia/Jerusalem", c"Asia/Dhaka", c"Asia/Yerevan", c"Australia/Lord_Howe", c"Australia/Sydney",
    c"Europe/London", c"Europe/Stockholm", c"Pacific/Samoa", c"UTC",
];

/// What a file may contain that somebody has left where it is looked for.
const FILES: [Option<&[u8]>; 9] = [
    None,
    Some(b""),
    Some(b"1\n"),
    Some(b"{\"version\": 3, \"duration\": 9, \"mode\": \"hoonymode\", \"players\": []}\n"),
    Some(b"CET +09:00\nCET=+09:00\nCET,+09:00\n(\"CET\", \"+09:00\")\n"),
    Some(b"#FRAGMSG X_SUICIDE  died\n#FRAGMSG X_DEATH  suicides\n#FRAGMSG X_FRAGS_Y  ROCKET  rides \n#FRAGMSG PLAYER_SUICIDE \" died\"\n"),
    Some(b"hostname=x\nmode=hoonymode\nmax_samples=1\nsamples=1\ntimezone=Asia/Shanghai\ntz=+09:00\nverbose=1\nstrict=1\n"),
    Some(b"[mvdparser]\nmax_samples = 1\nstrict = true\ntimezone = \"Asia/Shanghai\"\n"),
    // a zone of nine hours, as in /etc/localtime
    Some(b"TZif2\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x01\0\0\0\x04\0\0~\x90\0\0JST\0TZif2\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x01\0\0\0\x04\0\0~\x90\0\0JST\0\nJST-9\n"),
];

fn around(cx: &mut Ctx, seeds: usize) -> (Around, String) {
    let mut a = PLAIN;
    let mut w = vec![];
    a.seed = 1 + cx.choose(seeds) as u64;
    w.push(format!("hash seed {}", a.seed));
    let k = cx.deviate(DATES.len() + 1);
    if k > 0 {
        a.world.realtime = Some(DATES[k - 1]);
        w.push(format!("the clock at {:?}", DATES[k - 1]));
    }
    if cx.deviate(2) == 1 {
        a.world.leaps = true;
        w.push("an hour passing with every look at the clock".into());
    }
    let k = cx.deviate(ENVS.len() + 1);
    if k > 0 {
        a.world.env = Some(ENVS[k - 1]);
        w.push(format!("every environment variable {:?}", ENVS[k - 1]));
    }
    let k = cx.deviate(4);
    if k > 0 {
        a.shift = [1, 8, 13][k - 1];
        w.push(format!("the bytes {} further on", a.shift));
    }
    let k = cx.deviate(3);
    if k > 0 {
        a.heap = k * k;
        w.push(format!("{} holes in the heap", a.heap * 42));
    }
    if cx.deviate(2) == 1 {
        a.stack = 8 << 20;
        w.push("a larger stack".into());
    }
    if cx.deviate(2) == 1 {
        a.pinned = true;
        w.push("one processor".into());
    }
    let k = cx.deviate(FILES.len() + 1);
    if k > 0 {
        a.world.files = Some(FILES[k - 1]);
        w.push(match FILES[k - 1] {
            None => "no files".to_string(),
            Some(c) => format!("every file with the content {:?}", String::from_utf8_lossy(c)),
        });
    }
    let k = cx.deviate(3);
    if k > 0 {
        a.name = k;
        w.push(format!("a thread named {:?}", THREADS[k]));
    }
    let s = w.join(", ");
    (a, s)
}

/// A recording with words that mean nothing: a letter and five digits.
fn worded() -> Vec<u8> {
    let mut o = Opening { slots: 5, styles: 0, ..Default::default() };
    o.serverinfo = b"\\maxfps\\77\\map\\A00000\\mode\\B00000\\serverdemo\\C00000.mvd\\hostname\\D00000\\E00000\\1".to_vec();
    for (s, i) in [(0u8, "\\name\\F00000\\team\\G00000"), (1, "\\team\\H00000\\name\\I00000\\*auth\\J00000\\*flag\\J00000"), (2, "\\name\\x\\team\\G00000\\E00000\\2"), (4, "\\name\\F00000y\\*spectator\\1")] {
        o.clients.push(Client::new(s, i.as_bytes()));
    }
    let mut f = o.frames();
    f.extend([
        Frame::all(2, msg::print(2, b"matchdate: 2024-11-18 21:35:06 CET\n")),
        Frame::all(4, [msg::ping(0, 30, 0), msg::ping(1, 50, 0)].concat()),
        Frame::all(8, [msg::print(1, b"F00000 rides I00000's rocket\n"), msg::print(1, b"I00000 was nailed by x\n"), msg::print(1, b"K00000 died\n")].concat()),
        Frame::all(9, [msg::print(1, b"F00000 was telefragged by his teammate\n"), msg::frags(2, -1)].concat()),
        Frame::all(16, [msg::print(2, b"F00000"), msg::print(2, &latin1(" çïô the ÒÅÄ flag!\n"))].concat()),
        Frame::all(16, msg::print(2, &latin1("I00000 defends the ÒÅÄ flag\n"))),
        Frame::all(32, msg::print(3, b"x: L00000\n")),
        Frame::all(9, msg::print(2, b"The match is over\n")),
    ]);
    let r = "{\"version\": 3, \"hostname\": \"D00000\", \"ip\": \"M00000\", \"port\": 1, \"duration\": 3, \"map\": \"A00000\", \"players\": [{\"name\": \"F00000\", \"team\": \"G00000\", \"login\": \"J00000\", \"E00000\": 1}, {\"name\": \"I00000\", \"team\": \"H00000\"}]}";
    f.extend(wire::report_frames(r.as_bytes(), &[100]));
    f.push(wire::end_of_demo());
    wire::encode(&f)
}

/// A short recording with everything in it that any function looks for.
fn landmarks() -> &'static [u8] {
    static D: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut o = Opening { slots: 2, styles: 0, ..Default::default() };
        o.serverinfo = b"\\map\\dm2\\mode\\ffa\\epoch\\1731962106\\serverdemo\\x.mvd".to_vec();
        o.clients = vec![Client::named(0, "ann", "red"), Client::named(1, "bob", "red")];
        let mut f = vec![
            Frame::all(1, msg::print(2, &latin1("Íáôãè óôïððåä âù íáêïòéôù öïôå\n"))),
            Frame::all(2, msg::print(2, b"matchdate: 2024-11-18 21:35:06 CET\n")),
        ];
        f.extend(o.frames());
        f.extend([
            Frame::all(4, [msg::ping(0, 30, 0), msg::ping(1, 50, 0)].concat()),
            Frame::all(8, [msg::print(1, b"ann was telefragged by his teammate\n"), msg::frags(1, -1)].concat()),
            Frame::all(16, [msg::print(2, b"bob"), msg::print(2, &latin1(" çïô the ÒÅÄ flag!\n"))].concat()),
            Frame::all(32, msg::print(3, b"bob paused the game\n")),
            Frame::all(64, msg::serverinfo(b"status", b"Standby")),
            Frame::all(9, msg::print(2, b"The match is over\n")),
        ]);
        f.extend(wire::report_frames(b"{\"version\": 3, \"duration\": 3, \"players\": [{\"name\": \"a\", \"bot\": {}}]}", &[30]));
        f.push(wire::end_of_demo());
        wire::encode(&f)
    })
}

pub fn c20(_t: Tier) -> Prop {
    let ties = scenario("small rosters with ties, hash seeds", (0, 0), |cx| {
        let n = cx.by(3, 4);
        let mut p = vec![];
        for _ in 0..n {
            p.push((cx.choose(3), cx.choose(3)));
        }
        let (report, frags) = if cx.quick() {
            let k = cx.flag();
            (k, !k)
        } else {
            (cx.flag(), cx.flag())
        };
        let (d, keys) = tied(&p, report, frags);
        let mut a = PLAIN;
        let seeds = cx.by(6, 24);
        a.seed = 2 + cx.choose(seeds) as u64;
        check_around(cx, &d, a, &keys, format!("hash seed {}", a.seed))
    });
    let many = scenario("many players with ties, hash seeds", (0, 0), |cx| {
        // every player in the same place of every order
        let k = cx.choose(4);
        let mut o = Opening { slots: 32, styles: 0, ..Default::default() };
        let mut keys = vec![];
        for i in 0..16u8 {
            let (name, team) = match k {
                0 => ("same".to_string(), "t".to_string()),
                1 => (format!("p{i}"), format!("t{}", i % 8)),
                2 => (format!("{}{}", if i % 2 == 0 { "p" } else { "P" }, i / 2), format!("{}{}", if i % 4 < 2 { "t" } else { "T" }, i / 4)),
                _ => (format!("p{i}"), "".to_string()),
            };
            keys.push(name.clone());
            o.clients.push(Client::new(2 * i, &latin1(&format!("\\name\\{name}\\team\\{team}\\topcolor\\{}\\bottomcolor\\{}", i % 5, i % 3))));
        }
        let mut f = o.frames();
        let report = cx.flag();
        if report {
            let p: Vec<String> = o
                .clients
                .iter()
                .enumerate()
                .map(|(i, _)| format!("{{\"name\": \"{}\", \"team\": \"t{}\", \"top-color\": {}, \"bottom-color\": {}}}", keys[i], i % 5, i % 4, i % 3))
                .collect();
            f.extend(wire::report_frames(format!("{{\"version\": 3, \"players\": [{}]}}", p.join(",")).as_bytes(), &[]));
        } else {
            for i in 0..16u8 {
                f.push(Frame::all(1, [msg::ping(2 * i, 30, 0), msg::print(1, format!("{} suicides\n", keys[i as usize]).as_bytes())].concat()));
                f.push(Frame::all(1, msg::print(2, &latin1(&format!("{} defends the ÒÅÄ flag\n", keys[i as usize])))));
            }
        }
        let d = wire::encode(&f);
        let mut a = PLAIN;
        let seeds = cx.by(64, 2000);
        a.seed = 2 + cx.choose(seeds) as u64;
        check_around(cx, &d, a, &[], format!("hash seed {}", a.seed))
    });
    let histories = scenario("histories with several candidates, hash seeds", (0, 0), |cx| {
        // whose turn it is among equals must not depend on a map
        let who = cx.choose(3);
        let names = [["ann", "bob", "cid", "dan"], ["ann", "ann", "Ann", "bob"], ["a", "b", "c", "d"]][who];
        let clients: Vec<Client> = names.iter().enumerate().map(|(i, n)| Client::named(i as u8 * 3, n, if who == 2 { "" } else { "red" })).collect();
        let mut o = Opening { slots: 10, styles: 0, ..Default::default() };
        o.clients = clients;
        let mut f = o.frames();
        let n = cx.by(3, 4);
        for _ in 0..n {
            let x = names[cx.choose(2)];
            f.push(Frame::all(2, match cx.choose(7) {
                0 => [msg::print(1, format!("{x} was jumped by his teammate\n").as_bytes()), msg::frags(3, -1)].concat(),
                1 => msg::print(1, format!("{x} was telefragged by her teammate\n").as_bytes()),
                2 => [msg::frags(6, 2), msg::frags(9, 3)].concat(),
                3 => msg::frags(9, 3),
                4 => [msg::ping(0, 20, 0), msg::ping(3, 20, 0), msg::ping(6, 21, 0)].concat(),
                5 => [msg::print(1, format!("{x} suicides\n").as_bytes()), msg::print(1, b"bob died\n")].concat(),
                _ => [msg::print(2, x.as_bytes()), msg::print(2, &latin1(" çïô the ÒÅÄ flag!\n")), msg::print(2, &latin1("bob defends the ÒÅÄ flag\n"))].concat(),
            }));
        }
        let d = wire::encode(&f);
        let mut a = PLAIN;
        let seeds = cx.by(6, 24);
        a.seed = 2 + cx.choose(seeds) as u64;
        let keys: Vec<String> = names.iter().map(|n| n.to_string()).collect();
        check_around(cx, &d, a, &keys, format!("hash seed {}", a.seed))
    });
    let worlds = scenario("clock, environment, addresses, heap and stack", (2, 4), |cx| {
        let i = cx.choose(7);
        let (d, keys) = match i {
            6 => (crowd(0), vec![]),
            0..=2 => (compact_bytes(i).to_vec(), vec![]),
            3 => tied(&[(0, 0), (1, 1), (0, 2)], true, true),
            4 => tied(&[(0, 0), (1, 0), (2, 0)], false, true),
            _ => (wire::encode(&[Frame::all(1, msg::print(2, b"matchdate: 2024-11-18 21:35:06 CET\n")), Frame::all(0, msg::stufftext(b"fullserverinfo \"\\maxfps\\77\\mode\\ffa\\epoch\\x\"\n"))]), vec![]),
        };
        let seeds = cx.by(2, 6);
        let (a, what) = around(cx, seeds);
        let v = check_around(cx, &d, a, &keys, what);
        let (c, e) = (guard::CLOCK_READS.load(std::sync::atomic::Ordering::Relaxed), guard::ENV_READS.load(std::sync::atomic::Ordering::Relaxed));
        if c + e > 0 {
            cx.outcome(&"the clock or the environment was looked at");
        }
        v
    });
    let zones = scenario("every zone, on machines everywhere", (0, 0), |cx| {
        let z = cx.pick(super::texts::ZONES).0;
        let d = wire::encode(&[Frame::all(1, msg::print(2, format!("matchdate: 2024-07-18 21:35:06 {z}\n").as_bytes())), wire::end_of_demo()]);
        let mut a = PLAIN;
        let e = PLACES[cx.choose(PLACES.len())];
        a.world.env = Some(Some(e));
        if cx.flag() {
            a.world.realtime = Some((1_711_846_799, 999_999_999));
        }
        check_around(cx, &d, a, &[], format!("every environment variable {e:?}"))
    });
    let repeat = scenario("the same call again", (0, 0), |cx| {
        let d = compact_bytes(cx.choose(3));
        let f = cx.choose(FUNCS.len());
        let n = cx.by(300, 70_000);
        let first = result(f, d);
        cx.note(|| format!("{} {n} times", FUNCS[f].0));
        cx.step(&f, &first);
        let call = FUNCS[f].1;
        for i in 0..n {
            let r = api(FUNCS[f].0, || call(d))?;
            if r != first {
                return bad(format!("{} says {} when called for the {}th time, {} at first", FUNCS[f].0, clip(r), i + 2, clip(first)));
            }
        }
        cx.compared();
        cx.count("results_compared", n as u64);
        Ok(())
    });
    let places = scenario("every place in memory", (0, 0), |cx| {
        // what is looked for stands at every distance from either end
        let d = landmarks();
        let k = cx.choose(2 * d.len());
        let d = if k < d.len() { &d[k..] } else { &d[..k - d.len()] };
        cx.note(|| if k < d.len() { format!("without the first {k} bytes") } else { "without its last bytes".into() });
        cx.input(d);
        let mut buf = vec![0xAAu8; d.len() + 256];
        let base = buf.as_ptr().align_offset(64);
        let mut want: Vec<String> = vec![];
        let shifts = cx.by(16, 64);
        for shift in 0..shifts {
            let at = base + shift;
            buf[..at].fill(0xAA);
            buf[at..at + d.len()].copy_from_slice(d);
            buf[at + d.len()..].fill(0xAA);
            let got: Vec<String> = (0..FUNCS.len()).map(|f| result(f, &buf[at..at + d.len()])).collect();
            if shift == 0 {
                cx.step(&k, &got);
                want = got;
                continue;
            }
            cx.compared();
            cx.count("results_compared", got.len() as u64);
            for (f, (g, w)) in got.iter().zip(&want).enumerate() {
                if g != w {
                    return bad(format!("{}: {} where the bytes begin {shift} bytes behind a multiple of 64, {} where they begin at one", FUNCS[f].0, clip(g.clone()), clip(w.clone())));
                }
            }
        }
        Ok(())
    });
    let processes = scenario("processes", (2, 3), |cx| {
        let dir = scratch();
        let mut args: Vec<String> = vec![];
        let mut env: Vec<(&str, Option<&str>)> = vec![];
        let mut what = vec![];
        let k = cx.deviate(13);
        let sets: [&[(&str, Option<&str>)]; 13] = [
            &[],
            &[("TZ", Some("America/Halifax"))],
            &[("TZ", Some("Asia/Shanghai")), ("LANG", Some("zh_CN.UTF-8")), ("LANGUAGE", Some("zh"))],
            &[("TZ", Some("Europe/London")), ("LC_TIME", Some("en_GB.UTF-8"))],
            &[("TERM", Some("dumb")), ("COLUMNS", Some("20")), ("MVDPARSER_DEBUG", Some("1")), ("VERBOSE", Some("1"))],
            &[("TZ", Some("Asia/Kathmandu"))],
            &[("TZ", Some("EST5EDT,M3.2.0,M11.1.0"))],
            &[("TZ", Some(":nonsense"))],
            &[("LANG", Some("tr_TR.UTF-8")), ("LC_ALL", Some("tr_TR.UTF-8")), ("LC_NUMERIC", Some("de_DE.UTF-8"))],
            &[("LANG", Some("C")), ("LC_ALL", Some("POSIX")), ("NO_COLOR", Some("1"))],
            &[("HOME", None), ("PATH", None), ("USER", None), ("PWD", None), ("TMPDIR", Some("/nowhere"))],
            &[("RUST_BACKTRACE", Some("full")), ("RUST_LIB_BACKTRACE", Some("1")), ("RUST_LOG", Some("trace"))],
            &[("HOME", Some("/nowhere")), ("HOSTNAME", Some("x")), ("DEBUG", Some("1")), ("CI", Some("true"))],
        ];
        env.extend(sets[k]);
        what.push(format!("environment {:?}", sets[k]));
        let aslr = cx.deviate(2);
        let limits = cx.deviate(6);
        what.push(["no limits", "one processor", "few files", "a small stack", "no core files, an unlimited stack", "the lowest priority"][limits].to_string());
        let seed = cx.deviate(3);
        args.push(["1", "2", "os"][seed].to_string());
        let cwd = cx.deviate(3);
        let long = cx.deviate(2);
        let threads = cx.deviate(3);
        args.push(["main", "thread", "threads"][threads].to_string());
        what.push(format!("hash seed {}, {} address layout, directory {cwd}, arguments {long}, {}", args[0], ["random", "fixed"][aslr], args[1]));
        cx.note(|| what.join(", "));
        for (i, d) in process_inputs().iter().enumerate() {
            let p = dir.join(format!("in{i}.mvd"));
            if !p.exists() {
                let t = dir.join(format!(".in{i}-{:?}", std::thread::current().id()));
                std::fs::write(&t, d).and_then(|_| std::fs::rename(&t, &p)).expect("scratch");
            }
            args.push(p.display().to_string());
        }
        let other = dir.join("another directory");
        std::fs::create_dir_all(&other).expect("scratch");
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("dump").args(&args);
        if long == 1 {
            c.arg("x".repeat(50_000));
        }
        c.current_dir(match cwd {
            0 => dir.clone(),
            1 => "/".into(),
            _ => other,
        });
        for (k, v) in env {
            match v {
                Some(v) => c.env(k, v),
                None => c.env_remove(k),
            };
        }
        if aslr == 1 {
            use std::os::unix::process::CommandExt;
            unsafe {
                c.pre_exec(|| {
                    libc::personality(0x0040000);
                    Ok(())
                });
            }
        }
        if limits > 0 {
            use std::os::unix::process::CommandExt;
            unsafe {
                c.pre_exec(move || {
                    let set = |r, n| {
                        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                        libc::setrlimit(r, &l);
                    };
                    match limits {
                        1 => pin(),
                        2 => set(libc::RLIMIT_NOFILE, 8),
                        3 => set(libc::RLIMIT_STACK, 1 << 20),
                        4 => {
                            set(libc::RLIMIT_CORE, 0);
                            set(libc::RLIMIT_STACK, libc::RLIM_INFINITY);
                        }
                        _ => {
                            libc::setpriority(libc::PRIO_PROCESS, 0, 19);
                        }
                    }
                    Ok(())
                });
            }
        }
        let out = c.output().expect("child");
        if !out.status.success() {
            return bad(format!("a process with {} ended with {}", what.join(", "), out.status));
        }
        let got = String::from_utf8_lossy(&out.stdout).to_string();
        let want = process_baseline();
        cx.compared();
        cx.count("results_compared", got.lines().count() as u64);
        cx.step(&what, &(k, aslr, limits, seed, cwd, long, threads));
        for (g, w) in got.lines().zip(want.lines()) {
            if g != w {
                return bad(format!("a process with {}: {} instead of {}", what.join(", "), clip(g.to_string()), clip(w.to_string())));
            }
        }
        same("results of a process", &got.lines().count(), &want.lines().count())
    });
    prop(vec![ties, many, histories, worlds, zones, repeat, places, processes]).assume(&[
        "hash seeds are taken from getrandom, which the explorer answers; the clock and the environment are answered at clock_gettime and getenv",
        "the contents of maps are compared, not their order; the order of every list is compared",
    ])
}

fn process_inputs() -> &'static Vec<Vec<u8>> {
    static I: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    I.get_or_init(|| {
        let mut v: Vec<Vec<u8>> = (0..3).map(|i| compact_bytes(i).to_vec()).collect();
        v.push(tied(&[(0, 0), (1, 1), (0, 2)], true, true).0);
        v.push(tied(&[(0, 0), (1, 0), (2, 0)], false, true).0);
        for z in ["AST", "CST", "IST", "BST", "LHST", "+02"] {
            v.push(wire::encode(&[Frame::all(1, msg::print(2, format!("matchdate: 2024-07-18 21:35:06 {z}\n").as_bytes()))]));
        }
        v.push(crowd(0));
        v.push(crowd(1));
        v.extend(real::demos().into_iter().map(|(_, d)| d).take(3));
        v
    })
}

fn process_baseline() -> &'static String {
    static B: OnceLock<String> = OnceLock::new();
    B.get_or_init(|| {
        let mut s = String::new();
        for d in process_inputs() {
            for (f, r) in fresh(d, PLAIN, &[]).0.iter().enumerate() {
                s += &line(f, r);
            }
        }
        s
    })
}

fn line(f: usize, r: &str) -> String {
    format!("{} {:016x} {}\n", FUNCS[f].0, crate::engine::hash(r), r.chars().take(150).collect::<String>().replace('\n', " "))
}

pub fn scratch() -> std::path::PathBuf {
    match std::env::var_os("MC_SCRATCH") {
        Some(d) => d.into(),
        None => {
            let d = std::env::temp_dir().join(format!("mc-scratch-{}", std::process::id()));
            std::fs::create_dir_all(&d).expect("scratch dir");
            d
        }
    }
}

/// mc dump <seed> <main|thread|threads> <file>...: every result on every file
pub fn dump(a: &[String]) {
    guard::install_panic_hook();
    let seed = if a[0] == "os" { guard::OS_SEED } else { a[0].parse().unwrap() };
    let files: Vec<Vec<u8>> = a[2..].iter().filter_map(|p| std::fs::read(p).ok()).collect();
    let all = |d: &Vec<u8>| -> String { (0..FUNCS.len()).map(|f| line(f, &result(f, d))).collect() };
    let out: Vec<String> = match a[1].as_str() {
        "main" => {
            guard::set_seed(seed);
            files.iter().map(all).collect()
        }
        "thread" => std::thread::scope(|s| {
            s.spawn(|| {
                guard::set_seed(seed);
                files.iter().map(all).collect()
            })
            .join()
            .unwrap()
        }),
        _ => std::thread::scope(|s| {
            let h: Vec<_> = files
                .iter()
                .map(|d| {
                    s.spawn(move || {
                        guard::set_seed(seed);
                        all(d)
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        }),
    };
    print!("{}", out.concat());
}

// --- C21 -------------------------------------------------------------------------------------

/// The inputs of the sequences. The second has the length of the first and differs in everything that
/// is read; the fourth is the first cut short.
fn inputs() -> &'static Vec<Vec<u8>> {
    static I: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    I.get_or_init(|| {
        let a = small(0);
        let mut b = small(1);
        assert!(b.len() <= a.len(), "{} {}", b.len(), a.len());
        // frames without messages, then a filler
        let gap = a.len() - b.len();
        assert!(gap == 0 || gap >= 6);
        if gap > 0 {
            Frame::all(0, vec![1; gap - 6]).encode(&mut b);
        }
        assert!(a.len() == b.len());
        let c = small(2);
        let cut = a[..a.len() * 2 / 3].to_vec();
        let mut same_ends = a.clone();
        // differs from the first only in the middle
        let at = a.windows(4).position(|w| w == b"\\ann").unwrap() + 1;
        same_ends[at..at + 3].copy_from_slice(b"eve");
        let mut swapped = a.clone();
        swapped.reverse();
        let mut v = vec![a, b, c, cut, same_ends, swapped, vec![]];
        v.push(crowd(0));
        v.push(crowd(1));
        v.push(compact_bytes(0).to_vec());
        v.push(compact_bytes(1).to_vec());
        v.extend(failing());
        v
    })
}

/// recordings on which calls fail, each at another point
fn failing() -> Vec<Vec<u8>> {
    let a = small(0);
    let open = |s: &[u8]| {
        let mut o = Opening::with(vec![Client::named(0, "ann", "red"), Client::named(3, "bo", "blue")]);
        o.slots = 4;
        o.styles = 0;
        o.serverinfo = s.to_vec();
        let mut f = o.frames();
        f.push(Frame::all(9, vec![1; 300]));
        f
    };
    let report = b"{\"version\": 3, \"hostname\": \"h\", \"duration\": 77, \"players\": [{\"name\": \"zed\", \"team\": \"x\"}]}";
    let mut v = vec![];
    // the end missing: of the last report block, of the report
    v.push(a[..a.len() - 30].to_vec());
    let mut f = open(b"\\mode\\ffa\\maxfps\\77");
    f.extend(&mut wire::report_frames(report, &[20, 60]).into_iter().take(2));
    v.push(wire::encode(&f));
    // a report that is not text, one that is no document, one of another shape
    let mut bad_text = report.to_vec();
    bad_text[34] = 0xff;
    for (i, r) in [&bad_text[..], &report[..60], b"{\"version\": 3, \"duration\": -4, \"players\": {}}"].into_iter().enumerate() {
        let mut f = open(b"\\mode\\ffa\\epoch\\99999999999999999999\\maxfps\\x");
        f.push(Frame::all(4, msg::print(2, [&b"matchdate: 2024-13-41 21:35:06 CET\n"[..], b"matchdate: 2024-11-18 21:3", b"matchdate: \xff\xfe\n"][i])));
        f.extend(wire::report_frames(r, &[20]));
        v.push(wire::encode(&f));
    }
    // settings and roster without an end, names alone, prints without an end
    v.push([&b"\0\x06\x60\x00\x00\x00\x09fullserverinfo \"\\mode\\ffa\\name\\x"[..], &[b'y'; 80], &wire::encode(&[Frame::all(1, b"\x08\x01ann was nai".to_vec()), Frame::all(1, b"\x08\x02ann".to_vec())])].concat());
    v.push(wire::encode(&[Frame::all(0, [msg::stufftext(b"fullserverinfo \"\\mode\\ffa\"\n"), msg::stufftext(b"cmd spawn 1 0\n"), b"\x28\x05\0\0\0\0\\name\\ann\\team".to_vec()].concat())]));
    v
}

/// A short recording in which every function finds something.
pub fn small(which: usize) -> Vec<u8> {
    let mut f = vec![];
    let n: [[&str; 3]; 3] = [["ann", "bo", "cy"], ["dee", "ed", "fi"], ["gus", "hal", "ivy"]];
    let n = n[which];
    f.push(Frame::all(
        0,
        [
            msg::stufftext(match which {
                0 => b"fullserverinfo \"\\maxfps\\77\\mode\\2on2\\epoch\\1716233132\\serverdemo\\x.mvd\"\n".as_slice(),
                1 => b"fullserverinfo \"\\maxfps\\72\\mode\\ffa\\serverdemo\\yy.mvd\"\n",
                _ => b"fullserverinfo \"\\mode\\hoonymode\\map\\dm6\"\n",
            }),
            msg::stufftext(b"cmd spawn 1 0\n"),
        ]
        .concat(),
    ));
    let mut b = vec![];
    for (i, x) in n.iter().enumerate() {
        let s = (2 * i + which) as u8;
        b.extend(msg::userinfo(s, 7 + s as u32, format!("\\name\\{x}\\team\\{}{}", ["red", "t", "q"][which], if i == 1 && which != 1 { "\\*bot\\1" } else if i == 2 { "\\*spectator\\1" } else { "" }).as_bytes()));
    }
    f.push(Frame::all(0, b));
    // long enough to be valid
    f.push(Frame::all(1, vec![1; 450]));
    f.push(Frame::all(7, [msg::ping(which as u8, 30 + which as u16, 0), msg::ping(2 + which as u8, 50, 0)].concat()));
    // more samples than are averaged
    for i in 0..8 {
        f.push(Frame::all(1, msg::ping(which as u8, 60 + 9 * i + which as u16, 0)));
    }
    if which != 2 {
        f.push(Frame::all(5, msg::print(2, if which == 0 { b"matchdate: 2024-11-18 21:35:06 CET\n".as_slice() } else { b"matchdate: 2023-01-02 03:04:05\n" })));
    }
    f.push(Frame::all(3, msg::print(1, format!("{} was nailed by {}\n", n[0], n[1]).as_bytes())));
    f.push(Frame::all(3, [msg::print(1, format!("{} was jumped by his teammate\n", n[1]).as_bytes()), msg::frags(which as u8, -1)].concat()));
    f.push(Frame::all(3, msg::print(2, &latin1(&format!("{} defends the ÒÅÄ flag\n", n[which % 2])))));
    f.push(Frame::all(3, [msg::print(2, n[0].as_bytes()), msg::print(2, &latin1(" çïô the ÒÅÄ flag!\n"))].concat()));
    if which != 1 {
        f.push(Frame::all(9, msg::print(2, b"The match is over\n")));
    }
    if which != 2 {
        let r = format!("{{\"version\": 3,\n\"hostname\": \"h{which}\", \"ip\": \"{which}\", \"port\": {which}, \"duration\": {which}, \"players\": [{{\"name\": \"{}\", \"team\": \"x\"}}]}}", n[0]);
        f.extend(wire::report_frames(r.as_bytes(), if which == 0 { &[40] } else { &[] }));
        f.push(wire::end_of_demo());
    }
    wire::encode(&f)
}

/// A long recording: a full server, hundreds of prints, scores, flags and pings, a long report.
pub fn crowd(which: usize) -> Vec<u8> {
    let mut o = Opening { slots: 32, styles: 0, ..Default::default() };
    let name = |i: usize| format!("{}{i}", ["player", "q"][which]);
    // as many as fit into what is looked through for clients
    for i in 0..32 {
        let extra = if i % 11 == 10 { "\\*spectator\\1" } else if i % 7 == 6 { "\\*bot\\1" } else { "" };
        o.clients.push(Client::new(i as u8, format!("\\name\\{}\\team\\t{}\\topcolor\\{}\\bottomcolor\\{}{extra}", name(i), i % (4 + which), i % 13, i % 5).as_bytes()));
    }
    let mut f = o.frames();
    for i in 0..700 {
        let (a, b) = (name(i % 32), name((i * 5 + 1) % 32));
        let m = match i % 7 {
            0 => msg::print(1, format!("{a} was nailed by {b}\n").as_bytes()),
            1 => msg::print(2, &latin1(&format!("{a} defends the ÒÅÄ flag\n"))),
            2 => (0..32).flat_map(|s| msg::ping(s, (20 + i / 7 + s as usize) as u16, 0)).collect(),
            3 => msg::print(3, format!("{b}: line {i}\n").as_bytes()),
            4 => [msg::print(1, format!("{a} was telefragged by his teammate\n").as_bytes()), msg::frags((i % 32) as u8, -1)].concat(),
            5 => msg::print(1, format!("{b} suicides\n").as_bytes()),
            _ => [msg::print(2, a.as_bytes()), msg::print(2, &latin1(" çïô the ÒÅÄ flag!\n"))].concat(),
        };
        f.push(Frame::all(13, m));
        if i == 50 {
            f.push(Frame::all(9, msg::print(2, b"matchdate: 2024-11-18 21:35:06 CET\n")));
        }
    }
    if which == 0 {
        let p: Vec<String> = (0..32).map(|i| format!("{{\"name\": \"{}\", \"team\": \"t{}\", \"ping\": {i}, \"top-color\": {i}, \"stats\": {{\"frags\": {i}}}}}", name(i), i % 4)).collect();
        let r = format!("{{\"version\": 3, \"hostname\": \"crowded\", \"duration\": 1200, \"players\": [{}]}}\n", p.join(","));
        let cuts: Vec<usize> = (1..r.len().div_ceil(500)).map(|i| i * 500).collect();
        f.extend(wire::report_frames(r.as_bytes(), &cuts));
    }
    f.push(wire::end_of_demo());
    wire::encode(&f)
}

/// Ways in which two recordings of the same length differ in one place (two, where something is exchanged).
const DIFFERENCES: [&str; 20] = [
    "none", "killer", "order of obituaries", "flag name", "ping", "print", "frame time", "frame times exchanged", "client name", "client team", "client slot", "spectator mark", "date", "match end",
    "stated duration", "report name", "frag update", "abort", "settings", "end of demo",
];

/// A recording with a fact of every kind between two stretches of `pad` bytes.
fn alike(difference: usize, pad: usize) -> Vec<u8> {
    let d = DIFFERENCES[difference];
    let is = |what: &str, a: &'static str, b: &'static str| if d == what { b } else { a };
    let filler = || (0..pad.div_ceil(500)).map(|_| Frame::all(1, vec![1; 494]));
    let mut f = vec![Frame::all(0, msg::stufftext(format!("fullserverinfo \"\\maxfps\\7{}\\mode\\ffa\\serverdemo\\x.mvd\"\n", is("settings", "7", "2")).as_bytes()))];
    f.extend(filler());
    f.push(Frame::all(0, msg::stufftext(b"cmd spawn 1 0\n")));
    let slot = |n: u8| if d == "client slot" { 3 - n } else { n };
    f.push(Frame::all(0, [
        msg::userinfo(slot(1), 7, format!("\\name\\{}\\team\\red", is("client name", "ann", "eve")).as_bytes()),
        msg::userinfo(slot(2), 8, format!("\\name\\bob\\team\\{}", is("client team", "red", "tan")).as_bytes()),
        msg::userinfo(4, 8, format!("\\name\\cid\\team\\red\\*spectator\\{}", is("spectator mark", "0", "1")).as_bytes()),
    ].concat()));
    f.push(Frame::all(0, vec![1; 600]));
    for i in 0..9 {
        f.push(Frame::all(3, [msg::ping(1, 30 + 7 * i + (d == "ping") as u16, 0), msg::ping(2, 40 + i, 0)].concat()));
    }
    f.push(Frame::all(if d == "frame time" { 6 } else if d == "frame times exchanged" { 7 } else { 5 }, msg::print(2, format!("matchdate: 2024-11-1{} 21:35:06 CET\n", is("date", "8", "9")).as_bytes())));
    f.push(Frame::all(3, msg::print(1, format!("bob was nailed by {}\n", is("killer", "ann", "eve")).as_bytes())));
    let (x, y) = if d == "order of obituaries" { ("bob", "ann") } else { ("ann", "bob") };
    f.push(Frame::all(3, [msg::print(1, format!("{x} died\n").as_bytes()), msg::print(1, format!("{y} died\n").as_bytes())].concat()));
    f.push(Frame::all(3, [msg::print(1, b"bob was jumped by his teammate\n"), msg::frags(if d == "frag update" { 4 } else { 1 }, -1)].concat()));
    f.push(Frame::all(3, msg::print(3, format!("ann: hell{}\n", is("print", "o", "a")).as_bytes())));
    f.push(Frame::all(3, msg::print(2, &latin1(&format!("{} defends the ÒÅÄ flag\n", is("flag name", "ann", "eve"))))));
    f.push(Frame::all(3, [msg::print(2, b"bob"), msg::print(2, &latin1(" çïô the ÒÅÄ flag!\n"))].concat()));
    let abort: Vec<u8> = latin1(is("abort", "Íáôãè óôïððåä âù íáêïòéôù öïôå\n", "Íáôãè óôïððåä âù íéîïòéôù öïôå\n"));
    f.push(Frame::all(3, msg::print(2, &abort)));
    f.push(Frame::all(if d == "frame times exchanged" { 5 } else { 7 }, msg::print(2, is("match end", "The match is over\n", "The match is ovez\n").as_bytes())));
    if pad % 2 == 0 {
        let r = format!("{{\"version\": 3, \"hostname\": \"h\", \"duration\": {}, \"players\": [{{\"name\": \"{}\", \"team\": \"x\"}}]}}", is("stated duration", "600", "601"), is("report name", "ann", "eve"));
        f.extend(wire::report_frames(r.as_bytes(), &[40]));
    }
    f.extend(filler());
    let mut v = wire::encode(&f);
    v.extend(wire::encode(&[wire::end_of_demo()]));
    if d == "end of demo" {
        let n = v.len();
        v[n - 2] = b'0';
    }
    v
}

/// Where the bytes of a call lie: at the end of pages of their own that cannot be written, or in
/// a buffer that every call shares.
struct Place {
    base: *mut u8,
    len: usize,
}

impl Place {
    fn new(d: &[u8], read_only: bool) -> Place {
        let page = 4096;
        let body = d.len().max(1).div_ceil(page) * page;
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), body + page, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(!p.is_null() && p as isize != -1);
            let at = p.add(body - d.len());
            std::ptr::copy_nonoverlapping(d.as_ptr(), at, d.len());
            libc::mprotect(p.add(body) as *mut _, page, libc::PROT_NONE);
            if read_only {
                libc::mprotect(p as *mut _, body, libc::PROT_READ);
            }
            Place { base: at, len: d.len() }
        }
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base, self.len) }
    }
}

/// a child's time: many calls, or two that are run instruction by instruction, also on a busy machine
const CHILD_S: u32 = 100;

/// Runs f in a forked child: whatever the library keeps between calls is as it is at the start of a
/// process. The child's text is the answer; an empty one is a good end.
fn in_child(f: impl FnOnce() -> String) -> Result<String, String> {
    const MAX: usize = 1 << 20;
    unsafe {
        let mut fd = [0; 2];
        assert_eq!(libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fd[0]);
            libc::alarm(CHILD_S);
            guard::use_slot(usize::MAX);
            let r = match guard::catch(f) {
                Ok(s) => format!("+{s}"),
                Err(e) => format!("!{e}"),
            };
            let b = &r.as_bytes()[..r.len().min(MAX)];
            let mut at = 0;
            while at < b.len() {
                let n = libc::write(fd[1], b[at..].as_ptr() as *const _, b.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fd[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n < 0 && *libc::__errno_location() == libc::EINTR {
                continue;
            }
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            return Err(match libc::WTERMSIG(st) {
                libc::SIGALRM => "does not return".to_string(),
                s => format!("ends with signal {s}"),
            });
        }
        let s = String::from_utf8_lossy(&out).to_string();
        match s.chars().next() {
            Some('+') => Ok(s[1..].to_string()),
            Some('!') => panic!("harness in a child: {s}"),
            _ => Err("ended without an answer".to_string()),
        }
    }
}

/// What a call answers as the first one of a process.
fn alone(f: usize, i: usize) -> Result<&'static str, Fail> {
    static A: OnceLock<Vec<OnceLock<Result<String, String>>>> = OnceLock::new();
    let n = inputs().len();
    let v = A.get_or_init(|| (0..FUNCS.len() * n).map(|_| OnceLock::new()).collect());
    match v[f * n + i].get_or_init(|| in_child(|| result(f, &inputs()[i]))) {
        Ok(s) => Ok(s),
        Err(e) => bad(format!("{} {e}", FUNCS[f].0)),
    }
}

const LARGE: [usize; 2] = [7, 8];
const MODES: [&str; 3] = ["buffers of their own", "one buffer", "one buffer, a thread for each call"];

/// the answers of a sequence of calls, checked in a child
fn sequence(cx: &mut Ctx, calls: &[(usize, usize)], mode: usize) -> Verdict {
    let show = |k: &[(usize, usize)]| k.iter().map(|(f, i)| format!("{}(input {i})", FUNCS[*f].0)).collect::<Vec<_>>().join(", ");
    cx.note(|| format!("{}; {}", show(calls), MODES[mode]));
    let mut want = vec![];
    for (f, i) in calls {
        want.push(alone(*f, *i)?);
    }
    let r = in_child(|| {
        let own: Vec<Place> = if mode == 0 { inputs().iter().map(|d| Place::new(d, true)).collect() } else { vec![] };
        let shared = Place::new(&vec![0; inputs().iter().map(|d| d.len()).max().unwrap()], false);
        for (k, (f, i)) in calls.iter().enumerate() {
            let d = &inputs()[*i];
            let got;
            if mode == 0 {
                got = result(*f, own[*i].bytes());
            } else {
                // the front of the shared buffer
                let b = unsafe {
                    std::ptr::copy(d.as_ptr(), shared.base, d.len());
                    std::slice::from_raw_parts(shared.base, d.len())
                };
                got = if mode == 1 { result(*f, b) } else { std::thread::scope(|s| s.spawn(|| result(*f, b)).join().unwrap()) };
                if b != &d[..] {
                    return format!("{} changed its input", FUNCS[*f].0);
                }
            }
            if got != want[k] {
                return format!("{} on input {i} says {}, alone it says {}", FUNCS[*f].0, clip(got), clip(want[k].to_string()));
            }
        }
        String::new()
    });
    cx.compared();
    cx.count("calls", calls.len() as u64);
    let mut s = vec![];
    for (k, c) in calls.iter().enumerate() {
        s.push(*c);
        if k < 3 {
            cx.step(c, &(mode, &s));
        }
    }
    cx.outcome(&want.last());
    match r {
        Ok(s) if s.is_empty() => Ok(()),
        Ok(s) => bad(format!("{s} (calls: {}; {})", show(calls), MODES[mode])),
        Err(e) => bad(format!("the process {e} (calls: {}; {})", show(calls), MODES[mode])),
    }
}

/// functions that between them go through every reader
const CORE: [&str; 14] = [
    "clients", "countdown_duration", "demo_duration", "match_duration", "flag_events_per_player_name", "frags_per_player_name", "ktxstats_string",
    "matchdate", "ping_per_player_number", "players", "prints", "serverinfo", "teams", "is_valid",
];

pub fn c21(_t: Tier) -> Prop {
    let pairs = scenario("every call after every call", (0, 0), |cx| {
        let n = inputs().len();
        let mode = cx.choose(cx.by(2, 3));
        let ins = if !cx.quick() { n.min(7) } else if mode == 0 { 3 } else { 5 };
        let a = (cx.choose(FUNCS.len()), cx.choose(ins));
        let b = (cx.choose(FUNCS.len()), cx.choose(ins));
        sequence(cx, &[a, b], mode)
    });
    let then_all = scenario("every call, then all calls", (0, 0), |cx| {
        let n = cx.by(8, inputs().len());
        let mode = cx.choose(3);
        let mut v = vec![(cx.choose(FUNCS.len()), cx.choose(n))];
        let back = cx.flag();
        let by_input = cx.flag();
        let mut all: Vec<(usize, usize)> = (0..FUNCS.len()).flat_map(|f| (0..n).map(move |i| (f, i))).collect();
        if by_input {
            all.sort_by_key(|(f, i)| (*i, *f));
        }
        if back {
            all.reverse();
        }
        v.extend(all);
        sequence(cx, &v, mode)
    });
    let errors = scenario("calls that fail, then others", (0, 0), |cx| {
        let first_bad = 11;
        let bad_ones = inputs().len() - first_bad;
        let mode = cx.choose(3);
        let a = (cx.choose(FUNCS.len()), first_bad + cx.choose(bad_ones));
        // the same call before, twice, or after another failure
        let shape = cx.choose(4);
        let mut v = vec![];
        if shape == 1 {
            v.push((a.0, 0));
        }
        v.push(a);
        if shape == 2 {
            v.push(a);
        }
        if shape == 3 {
            v.push((a.0, first_bad + (a.1 + 1 - first_bad) % bad_ones));
        }
        // the same function on a good one, then all of them
        v.push((a.0, cx.choose(2)));
        for f in 0..FUNCS.len() {
            v.push((f, 2));
            v.push((f, 0));
            v.push((f, first_bad + f % bad_ones));
            v.push((f, 9));
        }
        sequence(cx, &v, mode)
    });
    let triples = scenario("three calls", (0, 0), |cx| {
        let ins = cx.by(2, 3);
        let mode = if cx.quick() { 1 } else { cx.choose(2) };
        let core: Vec<usize> = CORE.iter().map(|n| super::observe::index(n)).collect();
        let m = cx.by(12, core.len());
        let mut v = vec![];
        for _ in 0..3 {
            v.push((core[cx.choose(m)], cx.choose(ins)));
        }
        sequence(cx, &v, mode)
    });
    let again = scenario("the same call many times, then others", (0, 0), |cx| {
        let a = (cx.choose(FUNCS.len()), cx.choose(2));
        let times = *cx.pick(if cx.tier == Tier::Quick { &[15usize, 63, 257][..] } else { &[7, 15, 31, 63, 127, 255, 511, 4095, 66_000] });
        let mut v = vec![a; times];
        v.push((a.0, 1 - a.1));
        for f in CORE {
            v.push((super::observe::index(f), 2));
        }
        sequence(cx, &v, 1)
    });
    let large = scenario("large recordings, then small ones", (0, 0), |cx| {
        let mode = 1 + cx.choose(cx.by(1, 2));
        let a = (cx.choose(FUNCS.len()), LARGE[cx.choose(2)]);
        let b = cx.choose(FUNCS.len());
        // afterwards another large one, and small ones
        let v: Vec<(usize, usize)> = [a].into_iter().chain([0, LARGE[0], 2, LARGE[1], 1].map(|i| (b, i))).collect();
        sequence(cx, &v, mode)
    });
    let turns = scenario("large and small recordings in turn", (0, 0), |cx| {
        let f = cx.choose(FUNCS.len());
        let pat: &[usize] = *cx.pick(&[&[LARGE[0], 0][..], &[0, 0, 0, LARGE[1]], &[LARGE[0], LARGE[1], 1, 2], &[0, 3, 6, LARGE[0], 9]]);
        let n = cx.by(40, 600);
        let v: Vec<(usize, usize)> = (0..n).map(|i| (f, pat[i % pat.len()])).collect();
        sequence(cx, &v, 1)
    });
    let nth = scenario("every call up to the 70000th", (0, 0), |cx| {
        let f = cx.choose(FUNCS.len());
        let (i, n) = *cx.pick(&[(9usize, 70_000usize), (10, 70_000), (LARGE[0], 1100), (LARGE[1], 1100)]);
        let n = if cx.quick() || n < 70_000 { n } else { 300_000 };
        let want = alone(f, i)?;
        cx.note(|| format!("{} on input {i}, {n} times", FUNCS[f].0));
        cx.step(&(f, i), &n);
        let r = in_child(|| {
            let d = &inputs()[i];
            let call = FUNCS[f].1;
            for k in 0..n {
                if k % 64 == 0 {
                    unsafe { libc::alarm(CHILD_S) };
                }
                let got = call(d);
                if got != want {
                    return format!("{} on input {i} says {} when called for the {}th time, alone it says {}", FUNCS[f].0, clip(got), k + 1, clip(want.to_string()));
                }
            }
            String::new()
        });
        cx.compared();
        cx.count("calls", n as u64);
        match r {
            Ok(s) if s.is_empty() => Ok(()),
            Ok(s) => bad(s),
            Err(e) => bad(format!("the process {e} ({} on input {i}, {n} times)", FUNCS[f].0)),
        }
    });
    let ever_new = scenario("ever new recordings, one after another", (0, 0), |cx| {
        // recordings that differ in one word (or in all of them): the answers differ in that word
        const WORDS: &[u8] = b"abcdefghijklm";
        let word = cx.choose(WORDS.len() + 1);
        let n = cx.by(5000, 70_000);
        let text = |w: u8, i: usize| format!("{}{i:05}", (w as char).to_ascii_uppercase());
        let first = worded();
        let places: Vec<(usize, u8)> = (0..first.len() - 5)
            .filter(|&p| first[p].is_ascii_uppercase() && &first[p + 1..p + 6] == b"00000")
            .map(|p| (p, first[p].to_ascii_lowercase()))
            .filter(|(_, w)| word == WORDS.len() || *w == WORDS[word])
            .collect();
        cx.note(|| format!("{n} recordings with ever new words {}", WORDS.get(word).map_or("of all kinds".into(), |w| text(*w, 0))));
        cx.step(&word, &n);
        cx.input(&first);
        let r = in_child(|| {
            let mut d = first.clone();
            let want: Vec<String> = (0..FUNCS.len()).map(|f| result(f, &d)).collect();
            for i in 1..n {
                if i % 64 == 0 {
                    unsafe { libc::alarm(CHILD_S) };
                }
                for (p, w) in &places {
                    d[*p..p + 6].copy_from_slice(text(*w, i).as_bytes());
                }
                for f in 0..FUNCS.len() {
                    let got = result(f, &d);
                    let mut same = got.clone();
                    for w in WORDS.iter().enumerate().filter(|(k, _)| word == WORDS.len() || *k == word).map(|(_, w)| *w) {
                        same = same.replace(&text(w, i), &text(w, 0));
                    }
                    if same != want[f] {
                        return format!("{} says {} on the {}th recording, on the first it says {}", FUNCS[f].0, clip(got), i + 1, clip(want[f].clone()));
                    }
                }
            }
            String::new()
        });
        cx.compared();
        cx.count("calls", (n * FUNCS.len()) as u64);
        match r {
            Ok(s) if s.is_empty() => Ok(()),
            Ok(s) => bad(s),
            Err(e) => bad(format!("the process {e} ({n} recordings)")),
        }
    });
    let near = scenario("recordings of one length that differ in one place", (0, 0), |cx| {
        let pad = *cx.pick(&[0usize, 1, 1100, 1101, 70_000]);
        let k = 1 + cx.choose(DIFFERENCES.len() - 1);
        let back = cx.flag();
        let f = cx.choose(FUNCS.len());
        let mut d = [alike(0, pad), alike(k, pad)];
        assert!(d[0].len() == d[1].len());
        if d[0] == d[1] {
            return Ok(()); // about a report that is not there
        }
        if back {
            d.reverse();
        }
        let what = format!("{} on recordings that differ in: {} ({pad} bytes before and behind)", FUNCS[f].0, DIFFERENCES[k]);
        cx.note(|| what.clone());
        cx.step(&(f, k), &(pad, k, back, f));
        let alone = |i: usize| in_child(|| result(f, &d[i])).or_else(|e| bad(format!("{what}: the process {e}")));
        let want = [alone(0)?, alone(1)?];
        // each in a buffer of its own, or both in the same
        let shared = cx.flag();
        let got = in_child(|| {
            let mut b = vec![0; d[0].len()];
            for i in [0, 1, 0, 1] {
                let r = if shared {
                    b.copy_from_slice(&d[i]);
                    result(f, &b)
                } else {
                    result(f, &d[i])
                };
                if r != want[i] {
                    return format!("call says {}, alone it says {}", clip(r), clip(want[i].clone()));
                }
            }
            String::new()
        });
        cx.compared();
        cx.count("calls", 6);
        cx.outcome(&(f, &want));
        match got {
            Ok(s) if s.is_empty() => Ok(()),
            Ok(s) => bad(format!("{what}: {s}")),
            Err(e) => bad(format!("{what}: the process {e}")),
        }
    });
    prop(vec![pairs, then_all, triples, errors, again, large, turns, near, ever_new, nth]).assume(&["every sequence runs in a forked child of a process that has never called the library"])
}

// --- C22 -------------------------------------------------------------------------------------

use super::observe::MARKED;
use crate::step::{self, Lane, Sched};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Mutex;

type Call = (usize, usize);

fn name(c: Call) -> String {
    format!("{}(input {})", FUNCS[c.0].0, c.1)
}

/// One call executed instruction by instruction, with a whole other call in front of every instruction.
fn interleave(cx: &mut Ctx, a: Call, b: Call) -> Verdict {
    let what = format!("{} with {} run in front of every instruction", name(a), name(b));
    cx.note(|| what.clone());
    let (want_a, want_b) = (alone(a.0, a.1)?, alone(b.0, b.1)?);
    let r = in_child(|| {
        step::install();
        unsafe { libc::alarm(120) };
        let (da, db) = (&inputs()[a.1], &inputs()[b.1]);
        let lane = Lane::default();
        let wrong: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let got_a = std::thread::scope(|s| {
            let (lane, wrong) = (&lane, &wrong);
            s.spawn(move || {
                guard::set_seed(99);
                step::turns(lane, || {
                    let r = result(b.0, db);
                    if r != *want_b {
                        wrong.lock().unwrap().get_or_insert((lane.steps.load(Relaxed), r));
                    }
                });
            });
            let r = step::stepped(lane, || MARKED[a.0](da, step::on, step::off));
            lane.quit.store(1, Relaxed);
            r
        });
        let mut m = String::new();
        if let Some((k, r)) = wrong.into_inner().unwrap() {
            m = format!("at instruction {k} the second says {}, alone it says {}", clip(r), clip(want_b.to_string()));
        } else if got_a != want_a {
            m = format!("the first says {}, alone it says {}", clip(got_a), clip(want_a.to_string()));
        }
        format!("{} {} {} {m}", lane.steps.load(Relaxed), lane.ran.load(Relaxed), lane.blocked.load(Relaxed))
    });
    cx.compared();
    cx.outcome(&(a, b));
    let s = match r {
        Ok(s) => s,
        Err(e) => return bad(format!("{what}: the process {e}")),
    };
    let mut p = s.splitn(4, ' ');
    let mut n = || p.next().unwrap().parse::<u64>().unwrap();
    let (steps, ran, blocked) = (n(), n(), n());
    if std::env::var_os("MC_PEAKS").is_some() {
        eprintln!("STEPS {steps} ran {ran} blocked {blocked} {what}");
    }
    cx.count("schedules", ran + blocked);
    cx.count("schedules_in_which_one_call_waited_for_the_other", blocked);
    cx.explored(steps, ran);
    match p.next().unwrap() {
        "" => Ok(()),
        m => bad(format!("{what}: {m}")),
    }
}

/// How two calls end under one schedule.
struct Ran {
    results: Vec<String>,
    points: u32,
    blocked: bool,
    written: Vec<usize>,
    steps: u64,
}

/// What the process did before the two calls.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Before {
    Nothing,
    /// called every function on every input, and then made this call
    All(Option<Call>),
}

/// Runs two calls under one schedule, in a child.
fn under(calls: [Call; 2], before: Before, segments: Vec<(usize, u32)>, contended: Option<Vec<usize>>) -> Result<Ran, String> {
    let r = in_child(|| {
        step::install();
        if let Before::All(last) = before {
            for f in 0..FUNCS.len() {
                for d in inputs() {
                    result(f, d);
                }
            }
            if let Some((f, i)) = last {
                result(f, &inputs()[i]);
            }
        }
        let mut s = Sched::new(segments);
        s.contended = contended;
        let also: Vec<(usize, usize)> = inputs().iter().map(|d| (d.as_ptr() as usize, d.as_ptr() as usize + d.len())).collect();
        let results: Vec<String> = std::thread::scope(|t| {
            let h: Vec<_> = calls
                .into_iter()
                .enumerate()
                .map(|(me, c)| {
                    let (s, also) = (&s, &also);
                    t.spawn(move || {
                        guard::set_seed(7 + me as u64);
                        guard::set_world(World { env: Some(None), ..World::default() });
                        let arena = guard::use_arena(me);
                        step::scheduled(s, me, arena, also, || MARKED[c.0](&inputs()[c.1], step::on, step::off))
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap_or_else(|_| "thread died".to_string())).collect()
        });
        let solo = unsafe { &mut *s.solo.get() };
        solo.written.sort();
        solo.written.dedup();
        assert!(!solo.overflow, "too many words written");
        serde_json::json!([results, s.side[0].points.load(Relaxed), s.blocked.load(Relaxed), solo.written, s.side[0].steps.load(Relaxed) + s.side[1].steps.load(Relaxed)]).to_string()
    })?;
    let v: serde_json::Value = serde_json::from_str(&r).map_err(|e| format!("harness: {e}"))?;
    Ok(Ran {
        results: v[0].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
        points: v[1].as_u64().unwrap() as u32,
        blocked: v[2].as_bool().unwrap(),
        written: v[3].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
        steps: v[4].as_u64().unwrap(),
    })
}

struct Memo<K, V>(Mutex<Option<HashMap<K, V>>>);
impl<K: std::hash::Hash + Eq + Clone, V: Clone> Memo<K, V> {
    const fn new() -> Self {
        Memo(Mutex::new(None))
    }
    fn get(&self, k: K, f: impl FnOnce() -> Result<V, Fail>) -> Result<V, Fail> {
        if let Some(v) = self.0.lock().unwrap().get_or_insert_default().get(&k) {
            return Ok(v.clone());
        }
        let v = f()?;
        self.0.lock().unwrap().get_or_insert_default().insert(k, v.clone());
        Ok(v)
    }
}

/// The words shared with other threads that a call changes when it is alone (and the instructions it takes).
fn written(cx: &mut Ctx, c: Call, before: Before) -> Result<Vec<usize>, Fail> {
    static W: Memo<(Call, Before), (Vec<usize>, u64)> = Memo::new();
    let (w, n) = W.get((c, before), || match under([c, c], before, vec![(0, step::SOLO), (1, step::END)], None) {
        Ok(r) => Ok((r.written, r.steps)),
        Err(e) => bad(format!("{}: the process {e}", name(c))),
    })?;
    cx.count("instructions_watched", n);
    Ok(w)
}

/// Every word that either call changes in a process that has been used, whatever the last call was: a
/// call that is answered from something kept changes less than one that is not.
fn contended(cx: &mut Ctx, calls: [Call; 2], before: Before) -> Result<Vec<usize>, Fail> {
    let mut w = vec![];
    for c in calls {
        if before == Before::Nothing {
            w.extend(written(cx, c, before)?);
        } else {
            w.extend(written(cx, c, Before::All(None))?);
            w.extend(written(cx, c, Before::All(Some(c)))?);
        }
    }
    w.sort();
    w.dedup();
    Ok(w)
}

/// How often a call comes by the words that it or the other one changes.
fn points(cx: &mut Ctx, calls: [Call; 2], before: Before) -> Result<(u32, Vec<usize>), Fail> {
    static P: Memo<([Call; 2], Before), (u32, Vec<usize>)> = Memo::new();
    let w = contended(cx, calls, before)?;
    if w.is_empty() {
        return Ok((0, w));
    }
    P.get((calls, before), || match under(calls, before, vec![(0, step::ALL), (1, step::END)], Some(w.clone())) {
        Ok(r) => {
            if std::env::var_os("MC_PEAKS").is_some() {
                eprintln!("POINTS {} of {} words, before {before:?}, {} against {}", r.points, w.len(), name(calls[0]), name(calls[1]));
            }
            Ok((r.points, w))
        }
        Err(e) => bad(format!("{}: the process {e}", name(calls[0]))),
    })
}

/// the schedules with up to `bound` changes of turn, beginning with the first call
fn scheduled(cx: &mut Ctx, a: Call, b: Call, warm: Before, bound: usize, max: u32) -> Verdict {
    let (na, w) = points(cx, [a, b], warm)?;
    let (nb, _) = points(cx, [b, a], warm)?;
    if na.max(nb) > max {
        cx.count("pairs_with_more_points_than_explored", 1);
    }
    let n = [na.min(max), nb.min(max)];
    let mut segs: Vec<(usize, u32)> = vec![];
    let mut used = [0u32; 2];
    for k in 0..bound {
        let t = k % 2;
        let left = n[t].saturating_sub(used[t]);
        // to the end, or up to one of the points that are left
        let c = cx.choose(left as usize + 1) as u32;
        if c == 0 {
            break;
        }
        segs.push((t, c));
        used[t] += c;
    }
    let t = segs.len() % 2;
    segs.push((t, step::END));
    segs.push((1 - t, step::END));
    let what = format!("{} and {} {}, turns {:?}", name(a), name(b), match warm {
        Before::Nothing => "as the first calls of a process".to_string(),
        Before::All(None) => "in a process that has called everything".to_string(),
        Before::All(Some(c)) => format!("in a process that has called everything, {} last", name(c)),
    }, segs.iter().map(|(t, n)| format!("{}:{}", ["first", "second"][*t], if *n == step::END { "end".to_string() } else { format!("{n}") })).collect::<Vec<_>>());
    cx.note(|| what.clone());
    let want = [alone(a.0, a.1)?, alone(b.0, b.1)?];
    cx.count("schedules", 1);
    cx.compared();
    cx.step(&segs, &(a, b, warm, &segs));
    match under([a, b], warm, segs, Some(w)) {
        Err(e) => bad(format!("{what}: the process {e}")),
        Ok(Ran { results: got, blocked, .. }) => {
            cx.count("schedules_in_which_one_call_waited_for_the_other", blocked as u64);
            cx.outcome(&(a, b, warm, blocked));
            for k in 0..2 {
                if got[k] != want[k] {
                    return bad(format!("{what}: the {} says {}, alone it says {}", ["first", "second"][k], clip(got[k].clone()), clip(want[k].to_string())));
                }
            }
            Ok(())
        }
    }
}

pub fn c22(t: Tier) -> Prop {
    let cold = scenario("first calls of a process, turns at shared memory", (0, 0), |cx| {
        let f = cx.choose(FUNCS.len());
        let b = cx.choose(cx.by(2, 3));
        let bound = cx.by(1, 2);
        scheduled(cx, (f, 0), (f, b), Before::Nothing, bound, 1000)
    });
    let own = scenario("a function in two threads, turns at shared memory", (0, 0), |cx| {
        let f = cx.choose(FUNCS.len());
        let (a, b) = ((f, 0), (f, 1));
        let before = Before::All(*cx.pick(&[Some(a), None, Some(b)]));
        scheduled(cx, a, b, before, 1, 1000)
    });
    let own_deeper = scenario("a function in two threads, more turns at shared memory", (0, 0), |cx| {
        let f = cx.choose(FUNCS.len());
        let (a, b) = ((f, 0), (f, 1));
        let before = Before::All(*cx.pick(&[Some(a), None, Some(b)]));
        let bound = cx.by(2, 3);
        scheduled(cx, a, b, before, bound, 1000)
    });
    let warm = scenario("later calls of a process, turns at shared memory", (0, 0), |cx| {
        let bound = cx.by(1, 2);
        let f = cx.choose(FUNCS.len());
        let g = cx.choose(FUNCS.len());
        let (a, b) = if cx.quick() { (0, 1) } else { (cx.choose(3), cx.choose(3)) };
        let before = Before::All(*cx.pick(&[None, Some((f, a)), Some((g, b))]));
        scheduled(cx, (f, a), (g, b), before, bound, 1000)
    });
    let deeper = scenario("later calls of a process, more turns at shared memory", (0, 0), |cx| {
        let bound = cx.by(2, 3);
        let f = cx.choose(FUNCS.len());
        let g = cx.choose(FUNCS.len());
        let before = Before::All(Some((f, 0)));
        scheduled(cx, (f, 0), (g, 1), before, bound, 1000)
    });
    let same_function = scenario("a function on two recordings, turns at every instruction", (0, 0), |cx| {
        let f = cx.choose(FUNCS.len());
        interleave(cx, (f, 0), (f, 1))
    });
    let any_functions = scenario("any two functions, turns at every instruction", (0, 0), |cx| {
        let f = cx.choose(FUNCS.len());
        let g = cx.choose(FUNCS.len());
        interleave(cx, (f, 0), (g, 1))
    });
    let same_input = scenario("a function twice on one recording, turns at every instruction", (0, 0), |cx| {
        let f = cx.choose(FUNCS.len());
        interleave(cx, (f, 0), (f, 0))
    });
    let mut v = vec![own, cold, same_function, warm, own_deeper, deeper];
    if t == Tier::Thorough {
        v.extend([same_input, any_functions]);
    }
    let mut p = prop(v).assume(&[
        "the C library and the kernel keep their own state safe; memory that only one thread can reach is told from the rest by address (own stack, own arena, what cannot be written)",
        "turns at shared memory: one of two calls is interrupted at most once (quick) or twice and three times (thorough) at each word that either changes; turns at every instruction: one call runs whole in front of each instruction of the other",
        "sequentially consistent memory: instructions of one thread are not reordered",
    ]);
    p.workers = Some(4);
    p
}
