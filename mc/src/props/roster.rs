//! C11 to C15: rosters, names, players, teams.
use super::history::{demo_choice, real_frags, real_pings};
use super::*;
use crate::engine::scenario;
use crate::model::*;
use crate::text;
use crate::wire::{self, latin1, unlatin1, Client, Frame, Opening};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// a client as the statement describes it
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct C {
    pub number: u8,
    pub name: String,
    pub team: String,
    pub color: [u8; 2],
    pub spectator: bool,
    pub bot: bool,
    pub auth: Option<String>,
    pub cc: Option<String>,
}

pub fn real_clients(data: &[u8]) -> Result<Option<Vec<C>>, Fail> {
    let conv = |v: Vec<mvdparser::Client>| -> Vec<C> {
        v.into_iter()
            .map(|c| C {
                number: c.number,
                name: c.name,
                team: c.team,
                color: c.color,
                spectator: c.is_spectator,
                bot: c.is_bot,
                auth: c.auth_username,
                cc: c.auth_cc,
            })
            .collect()
    };
    let all = api("clients", || mvdparser::all::clients(data).ok())?.map(conv);
    let pl = api("player_clients", || mvdparser::player_clients(data).ok())?.map(conv);
    let sp = api("spectator_clients", || mvdparser::spectator_clients(data).ok())?.map(conv);
    let part = |s: bool| all.as_ref().map(|v| v.iter().filter(|c| c.spectator == s).cloned().collect::<Vec<_>>());
    same("player clients (against clients)", &pl, &part(false))?;
    same("spectator clients (against clients)", &sp, &part(true))?;
    Ok(all)
}

/// a client from its info string, read with our own reader (later keys win)
pub fn client_of(slot: u8, info: &[u8]) -> C {
    let s = unlatin1(info);
    let parts: Vec<&str> = s.trim_start_matches('\\').split('\\').collect();
    let mut m: BTreeMap<&str, &str> = BTreeMap::new();
    for p in parts.chunks(2) {
        if p.len() == 2 {
            m.insert(p[0], p[1]);
        }
    }
    let int = |k: &str| m.get(k).and_then(|v| v.parse::<i32>().ok());
    C {
        number: slot,
        name: m.get("name").unwrap_or(&"").to_string(),
        team: m.get("team").unwrap_or(&"").to_string(),
        color: [int("topcolor").unwrap_or(0) as u8, int("bottomcolor").unwrap_or(0) as u8],
        spectator: int("*spectator").is_some_and(|v| v != 0),
        bot: int("*bot").is_some_and(|v| v != 0),
        auth: m.get("*auth").map(|s| s.to_string()),
        cc: m.get("*flag").map(|s| s.to_string()),
    }
}

fn find(d: &[u8], n: &[u8], from: usize) -> Option<usize> {
    d[from..].windows(n.len()).position(|w| w == n).map(|p| p + from)
}

fn check_clients(cx: &mut Ctx, o: &Opening) -> Verdict {
    let mut want: Vec<C> = vec![];
    let mut cl = o.clients.clone();
    cl.sort_by_key(|c| c.slot);
    for c in &cl {
        want.push(client_of(c.slot, &c.info));
        cx.step(&(c.slot, &c.info), &want);
        cx.note(|| format!("slot {}: {:?}", c.slot, unlatin1(&c.info)));
    }
    let data = wire::encode(&o.frames());
    cx.input(&data);
    let got = real_clients(&data)?;
    cx.compared();
    cx.outcome(&got);
    if got.as_ref() == Some(&want) {
        return Ok(());
    }
    // known finding K2: the reader gives up when the next name is more than 512 bytes away
    if let Some(g) = &got {
        if g.len() < want.len() && *g == want[..g.len()] {
            let mut pos = find(&data, b"cmd spawn", 0).unwrap_or(0);
            for c in &cl[..g.len()] {
                pos = find(&data, &c.info, pos).unwrap_or(0) + c.info.len();
            }
            let next = &cl[g.len()];
            let at = find(&data, &next.info, pos).unwrap_or(0) + find(&next.info, b"\\name\\", 0).unwrap_or(0);
            if at + 6 > pos + 512 {
                return Err(Fail::Known("K2"));
            }
        }
    }
    same("clients", &got, &Some(want))
}

fn variant(slot: u8, v: usize) -> Vec<u8> {
    let s = match v % 6 {
        0 => format!("\\name\\p{slot}\\team\\red\\topcolor\\4\\bottomcolor\\{}", slot % 14),
        1 => format!("\\topcolor\\{}\\name\\q{slot}", slot % 14),
        2 => format!("\\*spectator\\1\\name\\s{slot}\\*client\\ezQuake 1"),
        3 => format!("\\bottomcolor\\13\\*bot\\1\\team\\blue\\name\\b{slot}"),
        4 => format!("\\*auth\\login{slot}\\*flag\\se\\name\\a{slot}\\team\\x\\rate\\25000"),
        _ => format!("\\name\\long{slot}\\{}\\*auth\\u{slot}", "k\\vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv"),
    };
    latin1(&s)
}

/// the roster of a real recording, read message by message
pub fn real_roster(d: &[u8]) -> Vec<C> {
    let mut out = vec![];
    let mut seen_spawn = false;
    for f in wire::decode(d).iter().take(400) {
        let Some(b) = f.messages() else { continue };
        if !seen_spawn {
            seen_spawn = find(b, b"cmd spawn", 0).is_some();
            continue;
        }
        let mut i = 0;
        let mut ended = false;
        let str_end = |i: usize| b[i.min(b.len())..].iter().position(|c| *c == 0).map(|p| i + p + 1);
        while i < b.len() {
            i = match b[i] {
                14 => i + 4,
                36 => i + 4,
                53 => i + 3,
                37 => i + 6,
                38 => i + 6,
                3 => i + 3,
                40 => {
                    let Some(e) = str_end(i + 6) else { break };
                    let c = client_of(b[i + 1], &b[i + 6..e - 1]);
                    if !c.name.is_empty() {
                        out.push(c);
                    }
                    e
                }
                12 => {
                    ended = true;
                    break;
                }
                _ => break,
            };
        }
        if ended {
            break;
        }
    }
    out
}

pub fn c11(_t: Tier) -> Prop {
    let occ = scenario("every occupancy of 8 slots", (0, 0), |cx| {
        let mask = 1 + cx.choose(255);
        let v = cx.choose(6);
        let fs = *cx.pick(&[700usize, 60, 1400]);
        let mut o = Opening::default();
        o.slots = *cx.pick(&[8u8, 32]);
        o.frame_size = fs;
        for s in 0..8u8 {
            if mask & (1 << s) != 0 {
                o.clients.push(Client::new(s, &variant(s, v + s as usize)));
            }
        }
        check_clients(cx, &o)
    });
    let wide = scenario("intervals and gaps in 32 slots", (0, 0), |cx| {
        // one or two runs of occupied slots
        let a = cx.choose(32) as u8;
        let la = 1 + cx.choose(32 - a as usize) as u8;
        let mut o = Opening::default();
        for s in a..a + la {
            o.clients.push(Client::new(s, &variant(s, s as usize)));
        }
        let left = 31 - (a + la - 1) as i32 - 1; // room for a second run after one free slot
        if left > 0 {
            let gap = cx.choose(left as usize + 1);
            if gap > 0 {
                let b = a + la + gap as u8;
                if b < 32 {
                    let lb = 1 + cx.choose(cx.by(1, (32 - b) as usize)) as u8;
                    for s in b..b + lb {
                        o.clients.push(Client::new(s, &variant(s, 7 + s as usize)));
                    }
                }
            }
        }
        check_clients(cx, &o)
    });
    let orders = scenario("attribute subsets in every order", (0, 0), |cx| {
        let mut attrs: Vec<(&str, &[&str])> = vec![
            ("name", &["ann"]),
            ("team", &["red", "r"]),
            ("topcolor", &["4", "13", "x"]),
            ("bottomcolor", &["12", "0"]),
            ("*spectator", &["1", "0", "2"]),
            ("*bot", &["1", "0"]),
            ("*auth", &["login"]),
            ("*flag", &["se"]),
            ("*client", &["ezQuake 3.6"]),
        ];
        let max = cx.by(5, 6);
        let mut info = String::new();
        let mut named = false;
        for i in 0..max {
            // the name must still get in
            let must = !named && i == max - 1;
            let k = if must { 0 } else { cx.choose(attrs.len() + named as usize) };
            if k == attrs.len() {
                break;
            }
            let (key, vals) = attrs.remove(k);
            named |= key == "name";
            let v = vals[if i < 3 { cx.choose(vals.len()) } else { 0 }];
            info += &format!("\\{key}\\{v}");
        }
        let mut o = Opening::default();
        o.slots = 8;
        o.clients = vec![Client::new(2, latin1(&info).as_slice()), Client::named(3, "bob", "blue")];
        check_clients(cx, &o)
    });
    let chars = scenario("every character of a name", (0, 0), |cx| {
        let b = 1 + cx.choose(255) as u8;
        if b == b'\\' || b == b'"' {
            return Ok(());
        }
        let mut name = match cx.choose(4) {
            0 => vec![b],
            1 => vec![b, b'x'],
            2 => vec![b'x', b],
            _ => vec![b'a', b, b, b'z'],
        };
        if b < 128 && (b as char).is_ascii_whitespace() || b == 0x0b {
            name = vec![b'a', b, b'z'];
        }
        let which = cx.choose(3);
        let mut info = b"\\".to_vec();
        let (n, t): (&[u8], &[u8]) = match which {
            0 => (&name, b"red"),
            1 => (b"ann", &name),
            _ => (&name, &name),
        };
        info.extend_from_slice(b"name\\");
        info.extend_from_slice(n);
        info.extend_from_slice(b"\\team\\");
        info.extend_from_slice(t);
        info.extend_from_slice(b"\\topcolor\\3");
        let mut o = Opening::default();
        o.slots = 4;
        o.clients = vec![Client::new(0, b"\\name\\first"), Client::new(1, &info), Client::new(3, b"\\name\\last")];
        check_clients(cx, &o)
    });
    let sizes = scenario("info sizes and user ids", (0, 0), |cx| {
        // sizes around every limit; uid bytes in all places below 2^24
        let size = *cx.pick(&[7usize, 8, 60, 127, 128, 195, 196, 254, 255, 256]);
        let at_end = cx.flag();
        let uid = *cx.pick(&[0u32, 1, 40, 255, 256, 0x2828, 65535, 65536, 0x28_0028, 0xff_ffff]);
        let n = 1 + cx.choose(3);
        let slot0 = *cx.pick(&[0u8, 8, 14, 20, 28]);
        let mut o = Opening::default();
        for i in 0..n as u8 {
            let mut info = b"\\name\\n".to_vec();
            info[6] = b'a' + i;
            if size > info.len() + 5 {
                let fill = vec![b'f'; size - info.len() - 3];
                if at_end {
                    info.extend_from_slice(b"\\k\\");
                    info.extend(fill);
                } else {
                    let mut x = b"\\k\\".to_vec();
                    x.extend(fill);
                    x.extend(info);
                    info = x;
                }
            }
            let mut c = Client::new(slot0 + i, &info);
            c.uid = uid;
            o.clients.push(c);
        }
        check_clients(cx, &o)
    });
    let full = scenario("full servers", (0, 0), |cx| {
        let n = 1 + cx.choose(32) as u8;
        let v = cx.choose(6);
        let fs = 40 * (1 + cx.choose(20));
        let mut o = Opening::default();
        o.frame_size = fs;
        for s in 0..n {
            o.clients.push(Client::new(s, &variant(s, v)));
        }
        check_clients(cx, &o)
    });
    let long = scenario("long infos on full servers", (0, 0), |cx| {
        let n = 1 + cx.choose(32) as u8;
        let size = *cx.pick(&[256usize, 255, 196, 128, 90]);
        let other = *cx.pick(&[256usize, 30]);
        let first = cx.flag();
        let mut o = Opening::default();
        o.frame_size = *cx.pick(&[700usize, 1450, 100]);
        for s in 0..n {
            let head = format!("\\name\\p{s}\\team\\red");
            let len = if s % 3 == 1 { other } else { size };
            let fill = format!("\\k\\{}", "f".repeat(len - head.len() - 3));
            let info = if first { head + &fill } else { fill + &head };
            o.clients.push(Client::new(s, &latin1(&info)));
        }
        check_clients(cx, &o)
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, _)) = demo_choice(cx) else { return Ok(()) };
        let want = real_roster(d);
        cx.step(&d.len(), &want);
        let got = real_clients(d)?;
        cx.compared();
        same("clients", &got, &Some(want))
    });
    let later = scenario("far into the recording, texts behind the roster", (0, 0), |cx| {
        let n = far(cx);
        let which = cx.choose(9);
        let gap = *cx.pick(&[0usize, 600, 5000]);
        let fill = cx.choose(4);
        let mut o = Opening::default();
        o.styles = 64;
        let slots: &[u8] = [&[0u8, 1, 2, 3][..], &[3], &[0, 2, 5, 9, 16], &[1]][fill];
        for s in slots {
            o.clients.push(Client::new(*s, &variant(*s, *s as usize)));
        }
        let want: Vec<C> = o.clients.iter().map(|c| client_of(c.slot, &c.info)).collect();
        let frames = o.frames();
        // the roster follows the spawn command; what the server sends in between may be long
        let spawn = frames.iter().position(|f| f.messages().is_some_and(|b| find(b, b"cmd spawn", 0).is_some())).unwrap();
        let mut data = wire::encode(&frames[..spawn]);
        data.extend(filler(n).0);
        data.extend(wire::encode(&frames[spawn..]));
        data.extend(filler(gap).0);
        let m = match which {
            0 => vec![],
            1 => wire::msg::stufftext(b"cmd spawn 2 0\n"),
            2 => wire::msg::stufftext(b"cmd spawnpoint\n"),
            3 => wire::msg::print(3, b"bob: cmd spawn\n"),
            4 => wire::msg::stufftext(b"skins\n"),
            5 => wire::msg::print(2, b"name changed\n"),
            6 if gap > 512 => wire::msg::userinfo(7, 999, b"\\name\\late\\team\\red"),
            7 if gap > 512 => wire::msg::print(3, b"bob: \\name\\x\\team\\y\n"),
            8 if gap > 512 => [wire::msg::stufftext(b"cmd spawn"), wire::msg::userinfo(7, 999, b"\\name\\late\\team\\red")].concat(),
            _ => return Ok(()),
        };
        Frame::all(3, m).encode(&mut data);
        data.extend(filler(700).0);
        cx.step(&(n, which, gap, fill), &want);
        cx.note(|| format!("slots {slots:?}, {n} bytes in front, text {which} {gap} bytes behind"));
        let got = real_clients(&data)?;
        cx.compared();
        cx.outcome(&got);
        same("clients", &got, &Some(want))
    });
    let marks = scenario("values of the marks and colours", (0, 0), |cx| {
        let vals = ["0", "1", "2", "-1", "3", "255", "256", "257", "13", "16", "007", "+1", "65536", "2147483647", "-2147483648", "01"];
        let key = *cx.pick(&["*spectator", "*bot", "topcolor", "bottomcolor"]);
        let v = *cx.pick(&vals);
        let first = cx.flag();
        let i = if first { format!("\\{key}\\{v}\\name\\ann") } else { format!("\\name\\ann\\team\\x\\{key}\\{v}") };
        let mut o = Opening::default();
        o.clients = vec![Client::new(0, &latin1(&i)), Client::new(1, &variant(1, 0))];
        check_clients(cx, &o)
    });
    let alike = scenario("values that read like keys", (0, 0), |cx| {
        const ATTRS: [&str; 9] = ["name", "team", "topcolor", "bottomcolor", "*spectator", "*bot", "*auth", "*flag", "*client"];
        const USUAL: [&str; 9] = ["ann", "red", "4", "12", "1", "1", "login", "se", "ezQuake"];
        // one attribute (or an unknown one) has as its value, or as part of its key, another one's key
        let text = cx.choose(6);
        let of = ["name", "team", "*auth", "*flag", "*client", "skin"][text];
        let key = ATTRS[cx.choose(9)];
        let value = match cx.choose(7) {
            0 => key.to_string(),
            1 => key.trim_start_matches('*').to_string(),
            2 => format!("{key}1"),
            3 => format!("x{key}"),
            4 => format!("{key} 1"),
            5 => key.to_uppercase(),
            _ => format!("*{key}"),
        };
        let as_key = cx.flag();
        let has = cx.flag() || key == "name";
        let before = cx.flag();
        let mut pairs: Vec<(String, String)> = vec![(of.to_string(), value.clone())];
        if as_key {
            if ATTRS.contains(&value.as_str()) {
                return Ok(());
            }
            pairs = vec![(value, "3".to_string())];
        }
        if has && pairs[0].0 != key {
            let i = ATTRS.iter().position(|k| *k == key).unwrap();
            pairs.insert(if before { 0 } else { 1 }, (key.to_string(), USUAL[i].to_string()));
        }
        if pairs.iter().all(|p| p.0 != "name") {
            pairs.insert(*cx.pick(&[0, pairs.len()]), ("name".to_string(), "zoe".to_string()));
        }
        let info: String = pairs.iter().map(|(k, v)| format!("\\{k}\\{v}")).collect();
        let mut o = Opening::default();
        o.slots = 8;
        o.clients = vec![Client::new(2, latin1(&info).as_slice()), Client::named(3, "bob", "blue")];
        check_clients(cx, &o)
    });
    prop(vec![occ, wide, orders, chars, sizes, full, long, conf, later, marks, alike]).assume(&[
        "info strings of 7 to 256 bytes with non-empty values, as the server writes them, user ids below 2^24",
        "no later user info update follows the initial player information within 512 bytes",
    ])
}

// --- C12 -------------------------------------------------------------------------------------

pub fn c12(_t: Tier) -> Prop {
    fn check(cx: &mut Ctx, clients: Vec<Client>, bot_report: bool) -> Verdict {
        let report = if bot_report {
            wire::encode(&wire::report_frames(br#"{"version": 3, "players": [{"name": "x", "bot": {"skill": 1}}]}"#, &[]))
        } else {
            vec![]
        };
        check_slots(cx, clients, report, bot_report, 8)
    }
    fn check_slots(cx: &mut Ctx, clients: Vec<Client>, after: Vec<u8>, bot_report: bool, slots: u8) -> Verdict {
        let mut o = Opening::with(clients);
        o.slots = slots;
        let mut model: Vec<C> = o.clients.iter().map(|c| client_of(c.slot, &c.info)).collect();
        model.sort_by_key(|c| c.number);
        for (i, c) in model.iter().enumerate() {
            cx.step(c, &model[..=i]);
            cx.note(|| format!("{c:?}"));
        }
        let mut data = wire::encode(&o.frames());
        data.extend(after);
        if data.len() < 1 << 20 {
            cx.input(&data);
        }
        let names = |s: bool| model.iter().filter(|c| c.spectator == s).map(|c| c.name.clone()).collect::<Vec<_>>();
        let mut teams: Vec<String> = vec![];
        for c in model.iter().filter(|c| !c.spectator) {
            if !teams.contains(&c.team) {
                teams.push(c.team.clone());
            }
        }
        let pn = api("player_names", || mvdparser::player_names(&data).ok())?;
        let sn = api("spectator_names", || mvdparser::spectator_names(&data).ok())?;
        let tn = api("team_names", || mvdparser::team_names(&data).ok())?;
        let hb = api("has_bot_players", || mvdparser::all::has_bot_players(&data).ok())?;
        let hh = api("has_human_players", || mvdparser::all::has_human_players(&data).ok())?;
        cx.compared();
        cx.outcome(&(&pn, &sn, &tn, hb, hh));
        for (what, got, want) in [("player names", &pn, names(false)), ("spectator names", &sn, names(true)), ("team names", &tn, teams)] {
            let ok = got.as_ref().is_some_and(|g| text::sorted_permutation(g, &want));
            if !ok {
                return bad(format!("{what}: got {got:?}, expected, sorted: {want:?}"));
            }
        }
        let bots = model.iter().any(|c| !c.spectator && c.bot);
        same("has_bot_players", &hb, &Some(bots || bot_report))?;
        same("has_human_players", &hh, &Some(model.iter().any(|c| !c.spectator && !c.bot)))
    }
    const NAMES: [&[u8]; 7] = [b"a", b"A", b"\xe1", b"b", b"\x10b\x11", b"[b]", b"\x92"];
    const TEAMS: [Option<&[u8]>; 5] = [Some(b"red"), Some(b"RED"), Some(b"\xf2\xe5\xe4"), Some(b"blue"), None];
    fn client(slot: u8, name: &[u8], team: Option<&[u8]>, spec: usize, bot: usize) -> Client {
        let mut i = b"\\name\\".to_vec();
        i.extend_from_slice(name);
        if let Some(t) = team {
            i.extend_from_slice(b"\\team\\");
            i.extend_from_slice(t);
        }
        if spec == 1 {
            i.extend_from_slice(b"\\*spectator\\1");
        }
        if bot == 1 {
            i.extend_from_slice(b"\\*bot\\1");
        }
        i.extend_from_slice(b"\\topcolor\\1");
        Client::new(slot, &i)
    }
    let names = scenario("names", (0, 0), |cx| {
        let n = 1 + cx.choose(cx.by(4, 5));
        let v: Vec<Client> = (0..n).map(|i| {
            let nm = cx.pick(&NAMES).to_vec();
            let s = cx.choose(2);
            client(i as u8, &nm, Some(b"t"), s, 0)
        }).collect();
        check(cx, v, false)
    });
    let teams = scenario("teams", (0, 0), |cx| {
        let n = 1 + cx.choose(cx.by(4, 6));
        let v: Vec<Client> = (0..n).map(|i| {
            let t = *cx.pick(&TEAMS);
            let s = cx.choose(2);
            client(i as u8, format!("p{i}").as_bytes(), t, s, 0)
        }).collect();
        check(cx, v, false)
    });
    let bots = scenario("bots", (0, 0), |cx| {
        let n = cx.choose(cx.by(5, 6));
        let v: Vec<Client> = (0..n).map(|i| {
            let (s, b) = (cx.choose(2), cx.choose(2));
            client(i as u8, format!("p{i}").as_bytes(), Some(b"red"), s, b)
        }).collect();
        let r = cx.flag();
        check(cx, v, r)
    });
    let chars = scenario("every pair of characters", (0, 0), |cx| {
        let ok = |b: u8| b != b'\\' && b != b'"';
        let (a, b) = (1 + cx.choose(255) as u8, 1 + cx.choose(255) as u8);
        if a > b || !ok(a) || !ok(b) {
            return Ok(());
        }
        let s = if cx.quick() { 0 } else { cx.choose(2) };
        let v = vec![client(0, &[b'n', b, b'z'], Some(&[b't', b, b'z']), s, 0), client(1, &[b'n', a, b'z'], Some(&[b't', a, b'z']), s, 0)];
        check(cx, v, false)
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, _)) = demo_choice(cx) else { return Ok(()) };
        let model = real_roster(d);
        cx.step(&d.len(), &model);
        let names = |s: bool| model.iter().filter(|c| c.spectator == s).map(|c| c.name.clone()).collect::<Vec<_>>();
        let mut teams: Vec<String> = model.iter().filter(|c| !c.spectator).map(|c| c.team.clone()).collect();
        teams.sort();
        teams.dedup();
        cx.compared();
        for (what, got, want) in [
            ("player names", api("player_names", || mvdparser::player_names(d).unwrap())?, names(false)),
            ("spectator names", api("spectator_names", || mvdparser::spectator_names(d).unwrap())?, names(true)),
            ("team names", api("team_names", || mvdparser::team_names(d).unwrap())?, teams),
        ] {
            if !text::sorted_permutation(&got, &want) {
                return bad(format!("{what}: got {got:?}, expected, sorted: {want:?}"));
            }
        }
        Ok(())
    });
    let kin = scenario("names and teams that are almost the same", (0, 0), |cx| {
        let (a, b) = siblings(cx);
        let mut v = vec![];
        for (i, n) in [a, b, a, b].iter().enumerate() {
            let t = [Some(a), Some(b), None][cx.choose(3)].map(latin1);
            let s = cx.choose(2);
            v.push(client(2 * (i as u8 % 4), &latin1(n), t.as_deref(), s, (s + i) % 2));
        }
        check(cx, v, false)
    });
    let crowd = scenario("full servers", (0, 0), |cx| {
        let n = 1 + cx.choose(32) as u8;
        let specs = cx.choose(4);
        let order = cx.choose(4) as u8;
        let teams = *cx.pick(&[1u8, 2, 5, 32]);
        let v: Vec<Client> = (0..n).map(|i| {
            let k = match order {
                0 => i,
                1 => 31 - i,
                2 => (i * 7) % 32,
                _ => i / 2,
            };
            let s = [0, (i % 2) as usize, (i % 5 == 0) as usize, 1][specs];
            client(i, format!("{}{k:02}", if k % 3 == 0 { "P" } else { "p" }).as_bytes(), Some(format!("t{}", k % teams).as_bytes()), s, (i % 4 == 3) as usize)
        }).collect();
        check_slots(cx, v, vec![], false, 32)
    });
    let reports = scenario("reports that list a bot", (0, 0), |cx| {
        let pad = far(cx);
        let (n, at) = *cx.pick(&[(1usize, 0usize), (2, 0), (2, 1), (8, 0), (8, 7), (40, 0), (40, 20), (40, 39), (300, 0)]);
        let size = *cx.pick(&[10usize, 500, 2000]);
        if size == 2000 && n == 300 && pad > 0x40000 {
            return Ok(());
        }
        let players: Vec<Value> = (0..n).map(|i| {
            let mut p = json!({"name": format!("p{i}"), "team": "t", "ping": 30, "pad": "x".repeat(size)});
            if i == at {
                p["bot"] = json!({"skill": 7, "customised": false});
            }
            p
        }).collect();
        let has = cx.flag();
        let mut doc = json!({ "players": players });
        if !has {
            for p in doc["players"].as_array_mut().unwrap() {
                p.as_object_mut().unwrap().remove("bot");
            }
        }
        let text = report(&doc);
        let cuts: Vec<usize> = (1..=text.len() / 8000).map(|i| i * 8000).collect();
        let mut frames = wire::report_frames(&text, &cuts);
        frames.push(wire::end_of_demo());
        let mut after = filler(pad).0;
        after.extend(wire::encode(&frames));
        after.extend(filler(if cx.flag() { 3000 } else { 0 }).0);
        check_slots(cx, vec![client(0, b"ann", Some(b"t"), 0, 0), client(1, b"bob", Some(b"t"), 1, 0)], after, has, 8)
    });
    prop(vec![names, teams, bots, chars, conf, kin, crowd, reports]).assume(&["names that read the same without regard to case may come in any (fixed, see C20) order"])
}

// --- C13 -------------------------------------------------------------------------------------

pub fn real_players(data: &[u8]) -> Result<Option<Vec<P>>, Fail> {
    Ok(api("players", || mvdparser::players(data).ok())?.map(|v| v.iter().map(P::of).collect()))
}

/// players with equal frags and name in a fixed order
fn settle(v: &mut [P]) {
    let n = v.len();
    let mut i = 0;
    while i < n {
        let mut j = i + 1;
        while j < n && v[j].frags == v[i].frags && v[j].name == v[i].name {
            j += 1;
        }
        v[i..j].sort_by_key(|p| format!("{p:?}"));
        i = j;
    }
}

pub fn same_players(what: &str, got: Option<Vec<P>>, want: Option<Vec<P>>) -> Verdict {
    let s = |o: Option<Vec<P>>| o.map(|mut v| { settle(&mut v); v });
    same(what, &s(got), &s(want))
}

pub fn parsed_players(roster: &[C], frags: &BTreeMap<String, i32>, pings: &BTreeMap<u8, u32>) -> Vec<P> {
    let mut v: Vec<P> = roster
        .iter()
        .filter(|c| !c.spectator)
        .map(|c| P {
            name: c.name.clone(),
            team: c.team.clone(),
            color: c.color,
            frags: frags.get(&c.name).copied().unwrap_or(0),
            ping: pings.get(&c.number).copied().unwrap_or(0),
            is_bot: c.bot,
            auth_username: c.auth.clone(),
            auth_cc: c.cc.clone(),
        })
        .collect();
    order_players(&mut v);
    v
}

/// Recordings without a report, and with reports that cannot be read.
fn unreadable_report(cx: &mut Ctx) -> Verdict {
    let base = cx.choose(3);
    let mut frames = other_recording(base);
    let parsed = {
        let d = wire::encode(&frames);
        api("players_from_parsing", || mvdparser::all::players_from_parsing(&d).ok())?.map(|v| v.iter().map(P::of).collect())
    };
    let good = report(&json!({"hostname": "h", "players": [{"name": "x"}]}));
    let how = cx.choose(14);
    let text: Vec<u8> = match how {
        0 => vec![],
        1 => b"{\"version\": 3, \"players\": [}".to_vec(),
        2 => good[..good.len() - 3].to_vec(),
        3 => b"{\"version\": 3, \"players\": 7}".to_vec(),
        4 => b"{\"version\": 3, \"port\": -1}".to_vec(),
        5 => b"{\"version\": \"x\"}".to_vec(),
        6 => [&good[..], b"garbage"].concat(),
        7 => b"{\"version\": 3, \"hostname\": \"\xff\"}".to_vec(),
        8 => b"{\"version\": 3, \"players\": {}}".to_vec(),
        9 => b"{\"version\": 3, \"players\": [{\"name\": \"x\", \"ping\": \"10\"}]}".to_vec(),
        10 => b"{\"version\": 3, \"players\": [{\"name\": \"x\", \"stats\": {\"frags\": 1e99}}]}".to_vec(),
        11 => b"{\"version\": 3, \"players\": [{\"name\": \"x\"},]}".to_vec(),
        12 => b"{\"version\": 3, \"hostname\": \"h\", \"hostname\": \"h\"".to_vec(),
        _ => good.clone(),
    };
    if how > 0 {
        let mut b = wire::report_frames(&text, &[text.len() / 3]);
        if how == 13 {
            b.pop();
        }
        frames.extend(b);
    }
    cx.step(&(base, how), &parsed);
    cx.note(|| format!("recording {base}, unreadable report {how}: {:?}", String::from_utf8_lossy(&text)));
    let data = wire::encode(&frames);
    cx.input(&data);
    let got = real_players(&data)?;
    let srv = api("server", || mvdparser::server(&data).is_ok())?;
    cx.compared();
    same_players("players", got, parsed)?;
    same("server details", &srv, &false)
}

pub fn c13(_t: Tier) -> Prop {
    fn check(cx: &mut Ctx, clients: Vec<Client>, evs: &[(Ev, Vec<Score>)]) -> Verdict {
        check_slots(cx, clients, evs, 12, 0)
    }
    fn check_slots(cx: &mut Ctx, clients: Vec<Client>, evs: &[(Ev, Vec<Score>)], slots: u8, gap: usize) -> Verdict {
        let mut o = Opening::with(clients);
        o.slots = slots;
        o.clients.sort_by_key(|c| c.slot);
        let roster: Vec<C> = o.clients.iter().map(|c| client_of(c.slot, &c.info)).collect();
        let mut fr = Frags::new(roster.iter().map(|c| (c.number, c.name.clone(), c.team.clone())).collect());
        let mut pi = Pings::default();
        cx.step(&0, &(&roster, &fr, &pi));
        for c in &roster {
            cx.note(|| format!("{c:?}"));
        }
        let mut data = wire::encode(&o.frames());
        for (e, s) in evs {
            fr.step(e, s);
            pi.step(e);
            cx.step(e, &(&roster, &fr, &pi));
            data.extend(filler(gap).0);
            e.frame().encode(&mut data);
            cx.note(|| e.show());
        }
        if data.len() < 1 << 20 {
            cx.input(&data);
        }
        let want = parsed_players(&roster, &fr.score, &pi.result().unwrap_or_default());
        let got = real_players(&data)?;
        let direct = api("players_from_parsing", || mvdparser::all::players_from_parsing(&data).ok())?.map(|v| v.iter().map(P::of).collect());
        cx.compared();
        cx.outcome(&got);
        same_players("players", got, Some(want.clone()))?;
        same_players("players from parsing", direct, Some(want))
    }
    let kills = |k: &str, v: &str| (Ev::all(3, vec![Msg::print(1, &format!("{v} was nailed by {k}\n"))]), vec![Score::Add(k.into(), 1)]);
    let slots = scenario("slots, pings and scores", (0, 0), move |cx| {
        let pats: [[u8; 3]; 6] = [[0, 1, 2], [1, 2, 3], [0, 2, 3], [0, 1, 3], [2, 5, 11], [0, 5, 10]];
        let p = *cx.pick(&pats);
        let specs = cx.choose(8);
        let names = ["cat", "bob", "ann"];
        let clients: Vec<Client> = (0..3).map(|i| {
            let sp = if specs & (1 << i) != 0 { "\\*spectator\\1" } else { "" };
            let bot = if i == 1 { "\\*bot\\1" } else { "\\*auth\\l\\*flag\\se" };
            Client::new(p[i], &latin1(&format!("\\name\\{}\\team\\{}\\topcolor\\{}\\bottomcolor\\{}{sp}{bot}", names[i], ["red", "blue"][i % 2], i, 10 + i)))
        }).collect();
        let mut evs = vec![];
        // samples for each subset of the slots, plus one unused slot
        let subset = cx.choose(16);
        let mut m = vec![];
        for (i, s) in p.iter().chain(&[7u8]).enumerate() {
            if subset & (1 << i) != 0 {
                m.push(Msg::Ping(*s, 20 + 10 * i as u16));
            }
        }
        if !m.is_empty() {
            evs.push((Ev::all(5, m), vec![]));
        }
        for _ in 0..cx.by(2, 4) {
            match cx.choose(5) {
                0 => evs.push(kills("ann", "bob")),
                1 => evs.push(kills("bob", "cat")),
                2 => evs.push((Ev::all(3, vec![Msg::print(1, "cat suicides\n")]), vec![Score::Add("cat".into(), -2)])),
                3 => evs.push(kills("ghost", "cat")),
                _ => evs.push((Ev::all(3, vec![Msg::Ping(p[0], 31)]), vec![])),
            }
        }
        check(cx, clients, &evs)
    });
    let order = scenario("order among equals", (0, 0), move |cx| {
        // all assignments of names and scores to four slots
        let names = ["b", "a", "B", "\u{e1}", "aa", "\u{10}z"];
        let mut left: Vec<&str> = names.to_vec();
        let mut clients = vec![];
        let mut evs = vec![(Ev::all(5, vec![Msg::Ping(0, 9)]), vec![])];
        for i in 0..4u8 {
            let n = left.remove(cx.choose(left.len()));
            clients.push(Client::new(2 * i, &latin1(&format!("\\name\\{n}\\team\\t\\topcolor\\{i}"))));
            let k = cx.choose(3);
            for _ in 0..k {
                let s = if k == 2 { 1 } else { -1 };
                let t = if s == 1 { format!("x was railed by {n}\n") } else { format!("{n} died\n") };
                evs.push((Ev::all(1, vec![Msg::print(1, &t)]), vec![Score::Add(n.to_string(), s)]));
            }
        }
        check(cx, clients, &evs)
    });
    let same_name = scenario("equal names", (0, 0), move |cx| {
        let mut clients = vec![];
        let mut evs = vec![(Ev::all(5, vec![Msg::Ping(1, 15), Msg::Ping(4, 45), Msg::Ping(5, 55)]), vec![])];
        for s in [1u8, 4, 5] {
            let n = *cx.pick(&["a", "b", "A"]);
            let t = *cx.pick(&["red", "blue"]);
            clients.push(Client::new(s, &latin1(&format!("\\name\\{n}\\team\\{t}\\topcolor\\{s}"))));
        }
        for _ in 0..cx.choose(3) {
            let k = *cx.pick(&["a", "b"]);
            evs.push(kills(k, "v"));
        }
        check(cx, clients, &evs)
    });
    let big = scenario("full servers", (0, 0), move |cx| {
        let n = 1 + cx.choose(12) as u8;
        let off = cx.choose(13 - n as usize) as u8;
        let clients: Vec<Client> = (0..n).map(|i| Client::named(off + i, &format!("n{:02}", (i * 7) % 13), if i % 3 == 0 { "red" } else { "blue" })).collect();
        let mut evs = vec![(Ev::all(5, (0..12).map(|s| Msg::Ping(s, 100 + s as u16)).collect()), vec![])];
        for i in 0..n {
            for _ in 0..(i as usize * 5) % 7 {
                evs.push(kills(&format!("n{:02}", (i * 7) % 13), "v"));
            }
        }
        check(cx, clients, &evs)
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, evs)) = demo_choice(cx) else { return Ok(()) };
        let roster = real_roster(d);
        let mut fr = Frags::new(roster.iter().map(|c| (c.number, c.name.clone(), c.team.clone())).collect());
        let mut pi = Pings::default();
        for e in evs {
            fr.step_text(e);
            pi.step(e);
        }
        cx.step(&d.len(), &(&roster, &fr, &pi));
        let got = api("players_from_parsing", || mvdparser::all::players_from_parsing(d).ok())?.map(|v| v.iter().map(P::of).collect());
        cx.compared();
        same_players("players from parsing", got, Some(parsed_players(&roster, &fr.score, &pi.result().unwrap_or_default())))
    });
    let kin = scenario("names that are almost the same", (0, 0), move |cx| {
        let (a, b) = siblings(cx);
        let gap = [0, far(cx)][cx.choose(2)];
        let who = cx.choose(4);
        let spec = cx.choose(3);
        let c = |s: u8, n: &str, t: &str, sp: bool| Client::new(s, &latin1(&format!("\\name\\{n}\\team\\{t}\\topcolor\\{s}{}", if sp { "\\*spectator\\1" } else { "" })));
        let clients = vec![c(1, a, "red", spec == 1), c(3, b, "blue", spec == 2), c(4, "zz", "red", false)];
        let mut evs = vec![(Ev::all(5, vec![Msg::Ping(1, 15), Msg::Ping(3, 45), Msg::Ping(4, 55)]), vec![])];
        let died = |n: &str| (Ev::all(1, vec![Msg::print(1, &format!("{n} died\n"))]), vec![Score::Add(n.into(), -1)]);
        if super::super::obits::readings(&format!("{a} died")) != 1 || super::super::obits::readings(&format!("{b} died")) != 1 {
            return Ok(());
        }
        match who {
            0 => evs.push(died(a)),
            1 => evs.push(died(b)),
            2 => evs.extend([died(a), died(b), died(b)]),
            _ => {}
        }
        check_slots(cx, clients, &evs, 12, gap)
    });
    let crew = scenario("every slot", (0, 0), move |cx| {
        let n = 1 + cx.choose(32) as u8;
        let specs = cx.choose(3);
        let order = cx.choose(3) as u8;
        let k = |i: u8| match order {
            0 => i,
            1 => 31 - i,
            _ => (i * 7) % 32,
        };
        let clients: Vec<Client> = (0..n).map(|i| {
            let sp = [false, i % 2 == 1, i % 5 == 0][specs];
            Client::new(i, &latin1(&format!("\\name\\n{:02}\\team\\t{}\\topcolor\\{}{}", k(i), i % 3, i % 14, if sp { "\\*spectator\\1" } else { "" })))
        }).collect();
        let mut evs = vec![(Ev::all(5, (0..32).map(|s| Msg::Ping(s, 100 + 3 * s as u16)).collect()), vec![])];
        for i in 0..n {
            for _ in 0..(i as usize * 5) % 7 {
                evs.push(kills(&format!("n{:02}", k(i)), "v"));
            }
        }
        check_slots(cx, clients, &evs, 32, 0)
    });
    let scores = scenario("large scores and pings", (0, 0), move |cx| {
        let n = *cx.pick(&[99usize, 100, 127, 128, 129, 255, 256, 999, 1000, 32768, 65536]);
        let down = cx.flag();
        let ping = *cx.pick(&[0u16, 255, 256, 999, 1000, 32768, 65535]);
        let clients = vec![Client::named(0, "ann", "red"), Client::named(2, "bob", "red")];
        let t = if down { "bob died\n" } else { "ann was nailed by bob\n" };
        let e = Ev::all(1, vec![Msg::print(1, t); n]);
        let s = vec![Score::Add("bob".into(), if down { -1 } else { 1 }); n];
        let mut fr = Frags::default();
        let mut pi = Pings::default();
        let first = Ev::all(5, vec![Msg::Ping(0, 9), Msg::Ping(2, ping)]);
        pi.step(&first);
        fr.step(&e, &s);
        let mut o = Opening::with(clients);
        o.slots = 8;
        let roster: Vec<C> = o.clients.iter().map(|c| client_of(c.slot, &c.info)).collect();
        let mut data = wire::encode(&o.frames());
        first.frame().encode(&mut data);
        e.frame().encode(&mut data);
        // (the opening has a sample too)
        let mut all = Pings::default();
        for f in &o.frames() {
            all.step(&abstract_frame(f));
        }
        all.step(&first);
        let want = parsed_players(&roster, &fr.score, &all.result().unwrap_or_default());
        cx.step(&(n, down, ping), &want);
        let got = real_players(&data)?;
        cx.compared();
        same_players("players", got, Some(want))
    });
    let unreadable = scenario("without a readable report", (0, 0), unreadable_report);
    prop(vec![unreadable, slots, order, same_name, big, conf, kin, crew, scores]).assume(&[
        "the recording has at least one ping sample (without any, reading the players is an error, see C10)",
        "players with the same name and frags may come in any (fixed, see C20) order",
    ])
}

// --- C14 -------------------------------------------------------------------------------------

/// a report as the recorder prints it
pub fn report(v: &Value) -> Vec<u8> {
    let mut s = String::from("{\"version\": 3");
    for (k, x) in v.as_object().unwrap().iter().filter(|(k, _)| *k != "version") {
        s += &format!(",\n  \"{k}\": {}", pretty(x));
    }
    s += "\n}\n";
    s.into_bytes()
}
fn pretty(v: &Value) -> String {
    match v {
        Value::Array(a) => format!("[\n{}\n]", a.iter().map(pretty).collect::<Vec<_>>().join(",\n")),
        Value::Object(o) => format!("{{{}}}", o.iter().map(|(k, x)| format!("\"{k}\": {}", pretty(x))).collect::<Vec<_>>().join(", ")),
        Value::String(s) => {
            // the recorder escapes everything that is not plain
            let mut t = String::from("\"");
            for c in s.chars() {
                if (c as u32) < 32 || (c as u32) > 126 || c == '"' || c == '\\' {
                    t += &format!("\\u{:04X}", c as u32);
                } else {
                    t.push(c);
                }
            }
            t + "\""
        }
        x => x.to_string(),
    }
}

fn report_player(p: &Value) -> P {
    let s = |k: &str| p.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string();
    let i = |k: &str| p.get(k).and_then(|v| v.as_i64()).unwrap_or(0);
    let login = s("login");
    P {
        name: s("name"),
        team: s("team"),
        color: [i("top-color") as u8, i("bottom-color") as u8],
        frags: p.get("stats").and_then(|s| s.get("frags")).and_then(|v| v.as_i64()).unwrap_or(0) as i32,
        ping: i("ping").max(0) as u32,
        is_bot: p.get("bot").is_some() || i("ping") == 10,
        auth_username: if login.is_empty() { None } else { Some(login) },
        auth_cc: None,
    }
}

/// recordings a report may contradict
fn other_recording(which: usize) -> Vec<Frame> {
    match which {
        0 => vec![],
        1 => Opening::default().frames(),
        _ => {
            let (mut f, evs) = super::history::base_history(0);
            f.extend(evs.iter().map(|e| e.0.frame()));
            f
        }
    }
}

pub fn c14(_t: Tier) -> Prop {
    fn check(cx: &mut Ctx, doc: &Value, base: usize) -> Verdict {
        let mut want: Vec<P> = vec![];
        for p in doc["players"].as_array().unwrap_or(&vec![]) {
            want.push(report_player(p));
            cx.step(&p.to_string(), &want);
        }
        order_players(&mut want);
        let text = report(doc);
        cx.note(|| format!("recording {base}, report {}", String::from_utf8_lossy(&text)));
        let mut frames = other_recording(base);
        // (the recorder's first block is never as short as the report's opening key)
        let cut = text.len() / 2;
        let cuts = [cut];
        frames.extend(wire::report_frames(&text, if cut >= 16 { &cuts } else { &[] }));
        frames.push(wire::end_of_demo());
        let data = wire::encode(&frames);
        cx.input(&data);
        let got = real_players(&data)?;
        cx.compared();
        cx.outcome(&got);
        same_players("players", got, Some(want.clone()))?;
        let st = api("players_from_ktxstats", || {
            let s = mvdparser::ktxstats_v3(&data).ok()?;
            mvdparser::all::players_from_ktxstats(&s).ok()
        })?;
        same_players("players from the report", st.map(|v| v.iter().map(P::of).collect()), Some(want))?;
        let srv = api("server", || mvdparser::server(&data).ok())?.map(|s| (s.hostname, s.ip, s.port, s.address));
        let s = |k: &str| doc.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string();
        let port = doc.get("port").and_then(|v| v.as_u64()).unwrap_or(0) as u32;
        same("server", &srv, &Some((s("hostname"), s("ip"), port, format!("{}:{}", s("ip"), port))))
    }
    fn put(o: &mut Value, k: &str, v: &Option<Value>) {
        if let Some(v) = v {
            o[k] = v.clone();
        }
    }
    let fields = scenario("player fields", (0, 0), |cx| {
        let mut p = json!({});
        put(&mut p, "top-color", cx.pick(&[Some(json!(4)), None]));
        put(&mut p, "bottom-color", cx.pick(&[Some(json!(13)), None]));
        put(&mut p, "ping", cx.pick(&[Some(json!(25)), Some(json!(10)), Some(json!(9)), Some(json!(11)), Some(json!(-1)), Some(json!(-10)), Some(json!(0)), Some(json!(999)), Some(json!(-2147483648i64)), None]));
        put(&mut p, "login", cx.pick(&[Some(json!("")), Some(json!("me")), Some(json!(" ")), None]));
        put(&mut p, "name", cx.pick(&[Some(json!("ann")), Some(json!("\u{e1}\u{10}x\u{ff}")), Some(json!("a\"b\\c")), None]));
        put(&mut p, "team", cx.pick(&[Some(json!("red")), Some(json!("\u{d2}")), None]));
        put(&mut p, "stats", cx.pick(&[Some(json!({"frags": 5, "deaths": 3, "kills": 9})), Some(json!({"frags": -7})), Some(json!({})), None]));
        put(&mut p, "bot", cx.pick(&[None, Some(json!({"skill": 7, "customised": true})), Some(json!({}))]));
        let doc = json!({"hostname": "h", "ip": "1.2.3.4", "port": 27500, "players": [p]});
        let base = if cx.quick() { 2 } else { cx.choose(3) };
        check(cx, &doc, base)
    });
    let order = scenario("order of players", (0, 0), |cx| {
        let n = cx.choose(cx.by(5, 6));
        let ps: Vec<Value> = (0..n).map(|i| {
            let name = *cx.pick(&["a", "b", "B", "\u{e1}"]);
            let frags = *cx.pick(&[0i32, 1, -1]);
            json!({"name": name, "team": "t", "ping": i, "stats": {"frags": frags}})
        }).collect();
        check(cx, &json!({"players": ps}), 0)
    });
    let extremes = scenario("extreme scores", (0, 0), |cx| {
        let v = [i32::MAX, i32::MIN, 0, 1, -1, 255, 256, 65536];
        let ps: Vec<Value> = (0..3).map(|i| json!({"name": format!("p{i}"), "stats": {"frags": v[cx.choose(8)]}, "ping": if i == 0 { i32::MAX } else { 3 }})).collect();
        check(cx, &json!({"players": ps}), 1)
    });
    let server = scenario("server fields", (0, 0), |cx| {
        let mut d = json!({});
        put(&mut d, "hostname", cx.pick(&[Some(json!("QUAKE.SE KTX:28501")), Some(json!("")), Some(json!("h\u{e1}\"x")), None]));
        put(&mut d, "ip", cx.pick(&[Some(json!("46.227.68.148")), Some(json!("::1")), Some(json!("")), None]));
        put(&mut d, "port", cx.pick(&[Some(json!(28501)), Some(json!(0)), Some(json!(65535)), Some(json!(4294967295u32)), None]));
        if cx.flag() {
            d["date"] = json!("2024-04-26 17:36:13 +0200");
        }
        if cx.flag() {
            d["players"] = json!([{"name": "x"}]);
        }
        if cx.flag() {
            d["unknown"] = json!({"a": [1, 2]});
        }
        let base = cx.choose(3);
        check(cx, &d, base)
    });
    let unreadable = scenario("without a readable report", (0, 0), unreadable_report);
    let conf = scenario("real recordings and reports", (0, 0), |cx| {
        // the reports stored beside the recordings, put into a recording
        let mut docs: Vec<(String, Vec<u8>)> = std::fs::read_dir(crate::real::dir())
            .map(|d| d.filter_map(|e| e.ok()).filter(|e| e.path().extension().is_some_and(|x| x == "json"))
                .filter_map(|e| Some((e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).ok()?))).collect())
            .unwrap_or_default();
        docs.sort();
        if docs.is_empty() {
            return Ok(());
        }
        let (n, text) = cx.pick(&docs).clone();
        let doc: Value = serde_json::from_slice(&text).expect("report file");
        let base = cx.choose(3);
        cx.note(|| format!("{n} in recording {base}"));
        check(cx, &doc, base)
    });
    let kin = scenario("names that are almost the same", (0, 0), |cx| {
        let (a, b) = siblings(cx);
        let f = [cx.choose(3) as i32 - 1, cx.choose(3) as i32 - 1, 0];
        let l = cx.choose(4);
        let login = |n: &str| if l == 1 { n.to_string() } else { String::new() };
        let ps: Vec<Value> = [a, b, a].iter().zip(f).enumerate().map(|(i, (n, f))| json!({"name": n, "team": ([a, b][i % 2]), "ping": 8 + i, "login": login(n), "top-color": i, "stats": {"frags": f}})).collect();
        check(cx, &json!({"hostname": a, "ip": b, "port": 1, "players": ps}), if l >= 2 { l } else { 0 })
    });
    let many = scenario("many players, long reports", (0, 0), |cx| {
        let n = *cx.pick(&[1usize, 2, 4, 8, 9, 16, 17, 24, 31, 32, 33, 64, 100, 255, 256, 300]);
        let order = cx.choose(4);
        let pad = *cx.pick(&[0usize, 100, 3000]);
        let base = *cx.pick(&[0usize, 2]);
        let ps: Vec<Value> = (0..n).map(|i| {
            let f = match order {
                0 => i as i32,
                1 => -(i as i32),
                2 => (i as i32 * 37) % 11,
                _ => 0,
            };
            json!({"name": format!("p{}", (i * 7) % n), "team": format!("t{}", i % 3), "ping": i as i32 - 1, "login": if i % 2 == 0 { "" } else { "me" }, "x": "y".repeat(pad), "stats": {"frags": f}})
        }).collect();
        check(cx, &json!({"hostname": "h", "ip": "1.2.3.4", "port": 27500, "players": ps}), base)
    });
    let values = scenario("every ping and colour", (0, 0), |cx| {
        let k = cx.choose(3);
        let v = cx.choose(300) as i64 - 20;
        let mut p = json!({"name": "a", "ping": 30, "top-color": 1, "bottom-color": 2, "stats": {"frags": 0}});
        match k {
            0 => p["ping"] = json!(v),
            1 => p["stats"]["frags"] = json!(v),
            _ if (0..=16).contains(&v) => {
                p["top-color"] = json!(v);
                p["bottom-color"] = json!(16 - v);
            }
            _ => return Ok(()),
        }
        check(cx, &json!({"players": [p, {"name": "b", "ping": 10, "stats": {"frags": 5}}]}), 0)
    });
    prop(vec![fields, order, extremes, server, unreadable, conf, kin, many, values]).assume(&[
        "players with the same name and frags may come in any (fixed, see C20) order",
    ])
}

// --- C15 -------------------------------------------------------------------------------------

pub fn c15(_t: Tier) -> Prop {
    fn check(cx: &mut Ctx, ps: &[P]) -> Verdict {
        for i in 0..ps.len() {
            cx.step(&ps[i], &ps[..=i]);
            cx.note(|| format!("{:?}", ps[i]));
        }
        let real: Vec<mvdparser::Player> = ps.iter().map(|p| p.real()).collect();
        let got: Vec<T> = api("teams_from_players", || mvdparser::all::teams_from_players(&real))?.iter().map(T::of).collect();
        cx.compared();
        cx.outcome(&got);
        let mut want = teams(ps);
        for t in want.iter_mut() {
            // the sum is limited to what the field can hold
            t.frags = t.frags.clamp(i32::MIN as i64, i32::MAX as i64);
        }
        if same_teams(&want, &got) {
            Ok(())
        } else {
            bad(format!("teams: got {}, expected {}", clip(format!("{got:?}")), clip(format!("{want:?}"))))
        }
    }
    fn pl(i: usize, team: &str, color: [u8; 2], frags: i32, ping: u32) -> P {
        P { name: format!("p{i}"), team: team.into(), color, frags, ping, ..Default::default() }
    }
    let small = scenario("small lists, all fields", (0, 0), |cx| {
        let n = cx.choose(cx.by(3, 4));
        let big = n <= cx.by(2, 2);
        let ps: Vec<P> = (0..n).map(|i| {
            let t: &str = if big { *cx.pick(&["red", "RED", "blue", "", "\u{f2}ed"]) } else { *cx.pick(&["red", "RED"]) };
            let c: [u8; 2] = *cx.pick(&[[4, 4], [4, 13], [13, 4]]);
            let f = if big { *cx.pick(&[0, -3, 7, i32::MAX, i32::MIN]) } else { *cx.pick(&[5, i32::MAX]) };
            let g = if big { *cx.pick(&[0u32, 1, 26, u32::MAX]) } else { *cx.pick(&[0u32, 25, u32::MAX]) };
            pl(i, t, c, f, g)
        }).collect();
        check(cx, &ps)
    });
    let color = scenario("team colours", (0, 0), |cx| {
        let n = 1 + cx.choose(cx.by(6, 8));
        let ps: Vec<P> = (0..n).map(|i| pl(i, "red", *cx.pick(&[[4, 4], [13, 13], [4, 13], [0, 0]]), i as i32, 10)).collect();
        check(cx, &ps)
    });
    let mixed = scenario("teams mixed in the list", (0, 0), |cx| {
        let n = 1 + cx.choose(cx.by(6, 7));
        let ps: Vec<P> = (0..n).map(|i| {
            let t = *cx.pick(&["a", "b", "A"]);
            pl(i, t, [*cx.pick(&[1u8, 2]), 0], 10 - i as i32, 3 * i as u32 + 1)
        }).collect();
        check(cx, &ps)
    });
    let avg = scenario("rounded averages", (0, 0), |cx| {
        let n = 1 + cx.choose(cx.by(5, 7));
        let ps: Vec<P> = (0..n).map(|i| pl(i, "t", [1, 1], 1, *cx.pick(&[0u32, 1, 2, 16_777_217]))).collect();
        check(cx, &ps)
    });
    let names = scenario("many teams", (0, 0), |cx| {
        // all orders of appearance of a few names
        let all = ["", "a", "B", "b\u{e9}", "C", "\u{10}x\u{11}", "1on1"];
        let mut left: Vec<&str> = all.to_vec();
        let n = 1 + cx.choose(cx.by(6, 7));
        let mut ps = vec![];
        for i in 0..n {
            ps.push(pl(i, left.remove(cx.choose(left.len())), [i as u8, 1], i as i32, i as u32));
        }
        if cx.flag() {
            let t = ps[0].team.clone();
            ps.push(pl(99, &t, [9, 9], -5, 1000));
        }
        check(cx, &ps)
    });
    let large = scenario("large teams", (0, 0), |cx| {
        let n = *cx.pick(&[16usize, 31, 32, 255, 256, 257, 1000]);
        let f = *cx.pick(&[1i32, -1, i32::MAX, i32::MIN]);
        let g = *cx.pick(&[0u32, 999, u32::MAX]);
        let k = *cx.pick(&[1usize, 2, 3]);
        let ps: Vec<P> = (0..n).map(|i| pl(i, ["a", "b", "c"][i % k], [(i % 5) as u8, (i % 3) as u8], f, g)).collect();
        check(cx, &ps)
    });
    let whole = scenario("whole recordings", (0, 0), |cx| {
        // the teams of a recording are the aggregation of its players, by report and by parsing
        let with_report = cx.flag();
        let n = cx.choose(cx.by(4, 5));
        let mut clients = vec![];
        let mut rp = vec![];
        let mut want = vec![];
        for i in 0..n {
            let t = *cx.pick(&["red", "RED", "blue"]);
            let c = *cx.pick(&[4u8, 13]);
            clients.push(Client::new(2 * i as u8, &latin1(&format!("\\name\\p{i}\\team\\{t}\\topcolor\\{c}\\bottomcolor\\{c}"))));
            rp.push(json!({"name": format!("p{i}"), "team": t, "top-color": c, "bottom-color": c, "ping": 30 + i, "stats": {"frags": 3}}));
            want.push(P { name: format!("p{i}"), team: t.into(), color: [c, c], frags: if with_report { 3 } else { 0 }, ping: 30 + i as u32, ..Default::default() });
            cx.step(&(i, t, c), &want);
        }
        let mut o = Opening::with(clients);
        o.slots = 10;
        let mut frames = o.frames();
        frames.push(Ev::all(1, (0..4).map(|i| Msg::Ping(2 * i, 30 + i as u16)).collect()).frame());
        if with_report {
            frames.extend(wire::report_frames(&report(&json!({"players": rp})), &[]));
        }
        let data = wire::encode(&frames);
        cx.note(|| format!("report {with_report}, players {want:?}"));
        cx.input(&data);
        let got: Option<Vec<T>> = api("teams", || mvdparser::teams(&data).ok())?.map(|v| v.iter().map(T::of).collect());
        cx.compared();
        cx.outcome(&got);
        let want = teams(&want);
        match got {
            Some(g) if same_teams(&want, &g) => Ok(()),
            g => bad(format!("teams: got {g:?}, expected {want:?}")),
        }
    });
    let conf = scenario("real recordings", (0, 0), |cx| {
        let Some((_, d, _)) = demo_choice(cx) else { return Ok(()) };
        let Some(ps) = real_players(d)? else { return Ok(()) };
        let got: Option<Vec<T>> = api("teams", || mvdparser::teams(d).ok())?.map(|v| v.iter().map(T::of).collect());
        cx.step(&d.len(), &ps);
        cx.compared();
        let want = teams(&ps);
        match got {
            Some(g) if same_teams(&want, &g) => Ok(()),
            g => bad(format!("teams: got {}, expected {}", clip(format!("{g:?}")), clip(format!("{want:?}")))),
        }
    });
    let kin = scenario("team names that are almost the same", (0, 0), |cx| {
        let (a, b) = siblings(cx);
        let n = cx.by(5, 6);
        let ps: Vec<P> = (0..n).map(|i| pl(i, [a, b, "bob2"][cx.choose(3)], [i as u8, 1], i as i32 * 3, 10 * i as u32)).collect();
        check(cx, &ps)
    });
    let pairs = scenario("every pair of characters", (0, 0), |cx| {
        let (a, b) = (cx.choose(256) as u8 as char, cx.choose(256) as u8 as char);
        let pre = *cx.pick(&["", "t"]);
        let ps = [pl(0, &format!("{pre}{a}"), [1, 1], 1, 1), pl(1, &format!("{pre}{b}"), [2, 1], 2, 2), pl(2, &format!("{pre}{a}"), [2, 1], 3, 9)];
        check(cx, &ps)
    });
    let many = scenario("many teams of many players", (0, 0), |cx| {
        let n = *cx.pick(&[2usize, 8, 16, 17, 31, 32, 33, 64, 255, 256, 257, 1000]);
        let k = *cx.pick(&[1usize, 2, 3, 16, 32, 255, 256, 257, 1000]);
        let c = *cx.pick(&[1usize, 2, 3, 7, 256]);
        let up = cx.flag();
        let ps: Vec<P> = (0..n).map(|i| {
            let t = if up { i % k } else { (k - 1) - (i * 7) % k };
            pl(i, &format!("T{t}"), [((i / 2) % c) as u8, (i % 2) as u8], i as i32 - 3, (i * 31 % 500) as u32)
        }).collect();
        check(cx, &ps)
    });
    prop(vec![small, color, mixed, avg, names, large, whole, conf, kin, pairs, many]).assume(&[
        "a frag sum beyond 32 bits is limited to the field's range",
        "teams whose names differ only in case may come in any (fixed, see C20) order",
    ])
}

#[allow(unused)]
fn unused() {
    let _ = (real_frags(b""), real_pings(b""));
}
