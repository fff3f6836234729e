//! Reference models. Each consumes a recording's frames one by one as abstract events and keeps the
//! smallest state that its property needs. They know nothing of offsets or buffers.
use crate::obits;
use crate::wire::{msg, unlatin1, Body, Frame};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Msg {
    Print(u8, Vec<u8>),
    Frags(u8, i16),
    Ping(u8, u16),
    /// anything else, already encoded
    Raw(Vec<u8>),
}

impl Msg {
    pub fn print(level: u8, text: &str) -> Msg {
        Msg::Print(level, crate::wire::latin1(text))
    }
    pub fn encode(&self, out: &mut Vec<u8>) {
        match self {
            Msg::Print(l, t) => out.extend(msg::print(*l, t)),
            Msg::Frags(s, f) => out.extend(msg::frags(*s, *f)),
            Msg::Ping(s, p) => out.extend(msg::ping(*s, *p, 0)),
            Msg::Raw(b) => out.extend_from_slice(b),
        }
    }
}

/// One frame of a history.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    /// messages to a target (kind 1, 3, 4, 5, 6)
    Msgs { ms: u8, kind: u8, player: u8, msgs: Vec<Msg> },
    /// anything that carries no messages: hidden data, sequence numbers, bare frames
    Silent(Frame),
}

impl Ev {
    pub fn all(ms: u8, msgs: Vec<Msg>) -> Ev {
        Ev::Msgs { ms, kind: 6, player: 0, msgs }
    }
    pub fn ms(&self) -> u8 {
        match self {
            Ev::Msgs { ms, .. } => *ms,
            Ev::Silent(f) => f.ms,
        }
    }
    pub fn frame(&self) -> Frame {
        match self {
            Ev::Msgs { ms, kind, player, msgs } => {
                let mut b = vec![];
                for m in msgs {
                    m.encode(&mut b);
                }
                Frame::to(*ms, *kind, *player, b)
            }
            Ev::Silent(f) => f.clone(),
        }
    }
    pub fn has_body(&self) -> bool {
        match self {
            Ev::Msgs { msgs, .. } => !msgs.is_empty(),
            Ev::Silent(f) => f.has_body(),
        }
    }
    pub fn leading(&self) -> &[Msg] {
        match self {
            Ev::Msgs { msgs, .. } => msgs,
            Ev::Silent(_) => &[],
        }
    }
    pub fn show(&self) -> String {
        match self {
            Ev::Msgs { ms, kind, player, msgs } => {
                let m: Vec<String> = msgs.iter().map(|m| match m {
                    Msg::Print(l, t) => format!("print({l},{:?})", unlatin1(t)),
                    Msg::Frags(s, f) => format!("frags({s},{f})"),
                    Msg::Ping(s, p) => format!("ping({s},{p})"),
                    Msg::Raw(b) => if b.len() <= 24 { format!("raw{b:?}") } else { format!("raw[{} bytes]", b.len()) },
                }).collect();
                format!("+{ms}ms k{kind}/p{player} {{{}}}", m.join(", "))
            }
            Ev::Silent(f) => match &f.body {
                Body::Multi { data, .. } => format!("+{}ms hidden[{} bytes: {:?}..]", f.ms, data.len(), &data[..data.len().min(12)]),
                b => format!("+{}ms {b:?}", f.ms),
            },
        }
    }
}

pub fn encode(evs: &[Ev]) -> Vec<u8> {
    let mut out = vec![];
    for e in evs {
        e.frame().encode(&mut out);
    }
    out
}

/// Abstract events of a decoded frame: the messages the models know, up to the first other one.
pub fn abstract_frame(f: &Frame) -> Ev {
    let Some(b) = f.messages() else {
        return Ev::Silent(f.clone());
    };
    let (kind, player) = match &f.body {
        Body::Msgs { kind, player, .. } => (*kind, *player),
        _ => (3, 0),
    };
    let mut msgs = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            8 => {
                let Some(end) = b[i + 1..].iter().position(|c| *c == 0).filter(|e| *e >= 1 || i + 2 < b.len()) else { break };
                // the level byte may itself be 0
                let (level, text, next) = if end == 0 {
                    let Some(e2) = b[i + 2..].iter().position(|c| *c == 0) else { break };
                    (0, &b[i + 2..i + 2 + e2], i + 2 + e2 + 1)
                } else {
                    (b[i + 1], &b[i + 2..i + 1 + end], i + 1 + end + 1)
                };
                msgs.push(Msg::Print(level, text.to_vec()));
                i = next;
            }
            14 if i + 4 <= b.len() => {
                msgs.push(Msg::Frags(b[i + 1], i16::from_le_bytes([b[i + 2], b[i + 3]])));
                i += 4;
            }
            36 if i + 7 <= b.len() && b[i + 4] == 53 => {
                msgs.push(Msg::Ping(b[i + 1], u16::from_le_bytes([b[i + 2], b[i + 3]])));
                i += 7;
            }
            _ => break,
        }
    }
    if i < b.len() {
        msgs.push(Msg::Raw(b[i..].to_vec()));
    }
    Ev::Msgs { ms: f.ms, kind, player, msgs }
}

// --- prints ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Prints {
    pub list: Vec<(u8, Vec<u8>)>,
}

impl Prints {
    pub fn step(&mut self, e: &Ev) {
        for m in e.leading() {
            let Msg::Print(l, t) = m else { break };
            if t.is_empty() {
                continue;
            }
            if self.list.last().map(|(a, b)| (*a, b)) != Some((*l, t)) {
                self.list.push((*l, t.clone()));
            }
        }
    }
}

// --- frags -----------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Score {
    None,
    Add(String, i32),
    /// team kill of this victim by somebody unnamed
    Unnamed(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Pending {
    victim: String,
    left: u8,
    settled: bool,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Frags {
    /// slot, name, team
    pub roster: Vec<(u8, String, String)>,
    pub score: BTreeMap<String, i32>,
    pending: Vec<Pending>,
}

impl Frags {
    pub fn new(roster: Vec<(u8, String, String)>) -> Frags {
        Frags { roster, ..Default::default() }
    }
    fn update(&mut self, p: &mut Pending, slot: u8) {
        if p.settled {
            return;
        }
        let Some(victim) = self.roster.iter().find(|r| r.1 == p.victim) else { return };
        let Some(k) = self.roster.iter().find(|r| r.0 == slot) else { return };
        if k.2 == victim.2 && k.1 != victim.1 {
            *self.score.entry(k.1.clone()).or_insert(0) -= 1;
            p.settled = true;
        }
    }
    /// `scores`: the meaning of the frame's leading medium prints, in order
    pub fn step(&mut self, e: &Ev, scores: &[Score]) {
        // frames with content after the print's own frame
        if e.has_body() {
            let mut pend = std::mem::take(&mut self.pending);
            if let Some(Msg::Frags(s, _)) = e.leading().first() {
                for p in pend.iter_mut() {
                    self.update(p, *s);
                }
            }
            for p in pend.iter_mut() {
                p.left -= 1;
            }
            pend.retain(|p| p.left > 0 && !p.settled);
            self.pending = pend;
        }
        let follows = e.leading().iter().find(|m| !matches!(m, Msg::Print(..)));
        for s in scores {
            match s {
                Score::None => {}
                Score::Add(n, d) => *self.score.entry(n.clone()).or_insert(0) += d,
                Score::Unnamed(v) => {
                    let mut p = Pending { victim: v.clone(), left: 2, settled: false };
                    if let Some(Msg::Frags(s, _)) = follows {
                        self.update(&mut p, *s);
                    }
                    if !p.settled {
                        self.pending.push(p);
                    }
                }
            }
        }
    }
    /// reads the scores from the texts (real recordings)
    pub fn step_text(&mut self, e: &Ev) {
        let mut v = vec![];
        for m in e.leading() {
            let Msg::Print(l, t) = m else { break };
            if *l == 1 && !t.is_empty() {
                v.push(obits::read(&unlatin1(t)));
            }
        }
        self.step(e, &v);
    }
}

// --- flags -----------------------------------------------------------------------------------

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Flags {
    /// per player: captures, pickups, returns, carrier frags, defends, carrier defends, vs aggressive
    pub tally: BTreeMap<String, [u32; 7]>,
}

impl Flags {
    pub fn add(&mut self, player: &str, kind: usize) {
        self.tally.entry(player.to_string()).or_default()[kind] += 1;
    }
    /// a whole message text
    pub fn read(&mut self, text: &str) {
        for (kind, needles) in obits::FLAGS.iter() {
            for n in needles {
                if let Some(p) = text.strip_suffix(n) {
                    return self.add(p, *kind);
                }
            }
        }
    }
}

// --- pings -----------------------------------------------------------------------------------

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Pings {
    pub samples: u32,
    pub sum: BTreeMap<u8, (u64, u64)>,
}

impl Pings {
    pub fn step(&mut self, e: &Ev) {
        if self.samples >= 8 {
            return;
        }
        let mut any = false;
        for m in e.leading() {
            let Msg::Ping(s, p) = m else { break };
            let x = self.sum.entry(*s).or_default();
            x.0 += *p as u64;
            x.1 += 1;
            any = true;
        }
        if any {
            self.samples += 1;
        }
    }
    pub fn result(&self) -> Option<BTreeMap<u8, u32>> {
        if self.sum.is_empty() {
            return None;
        }
        Some(self.sum.iter().map(|(k, (s, n))| (*k, (s / n) as u32)).collect())
    }
}

// --- time ------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mark {
    Over,
    Standby,
    Matchdate,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Time {
    pub ms: u64,
    pub over: Option<u64>,
    pub standby: Option<u64>,
    pub matchdate: Option<u64>,
}

impl Time {
    /// landmarks that lie in this frame
    pub fn step(&mut self, ms: u8, marks: &[Mark]) {
        self.ms += ms as u64;
        for m in marks {
            match m {
                Mark::Over => self.over = Some(self.ms),
                Mark::Standby => self.standby = Some(self.ms),
                Mark::Matchdate => {
                    self.matchdate.get_or_insert(self.ms);
                }
            }
        }
    }
    pub fn demo(&self) -> u64 {
        self.over.or(self.standby).unwrap_or(self.ms)
    }
}

// --- players and teams -----------------------------------------------------------------------

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct P {
    pub name: String,
    pub team: String,
    pub color: [u8; 2],
    pub frags: i32,
    pub ping: u32,
    pub is_bot: bool,
    pub auth_username: Option<String>,
    pub auth_cc: Option<String>,
}

impl P {
    pub fn of(p: &mvdparser::Player) -> P {
        P {
            name: p.name.clone(),
            team: p.team.clone(),
            color: p.color,
            frags: p.frags,
            ping: p.ping,
            is_bot: p.is_bot,
            auth_username: p.auth_username.clone(),
            auth_cc: p.auth_cc.clone(),
        }
    }
    pub fn real(&self) -> mvdparser::Player {
        mvdparser::Player {
            name: self.name.clone(),
            team: self.team.clone(),
            color: self.color,
            frags: self.frags,
            ping: self.ping,
            is_bot: self.is_bot,
            auth_username: self.auth_username.clone(),
            auth_cc: self.auth_cc.clone(),
        }
    }
}

/// most frags first, then by name; stable
pub fn order_players(v: &mut [P]) {
    v.sort_by(|a, b| b.frags.cmp(&a.frags).then(a.name.cmp(&b.name)));
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct T {
    pub name: String,
    pub color: [u8; 2],
    pub frags: i64,
    pub ping: u64,
    pub players: Vec<P>,
}

impl T {
    pub fn of(t: &mvdparser::Team) -> T {
        T {
            name: t.name.clone(),
            color: t.color,
            frags: t.frags as i64,
            ping: t.ping as u64,
            players: t.players.iter().map(P::of).collect(),
        }
    }
}

/// Teams by first appearance, then sorted by name without case (equal ones stay in any order:
/// see `same_teams`).
pub fn teams(players: &[P]) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    for p in players {
        match v.iter_mut().find(|t| t.name == p.team) {
            Some(t) => t.players.push(p.clone()),
            None => v.push(T { name: p.team.clone(), players: vec![p.clone()], ..Default::default() }),
        }
    }
    for t in v.iter_mut() {
        let n = t.players.len() as u64;
        t.frags = t.players.iter().map(|p| p.frags as i64).sum();
        let sum: u64 = t.players.iter().map(|p| p.ping as u64).sum();
        t.ping = (2 * sum + n) / (2 * n); // rounded, half up
        t.color = t.players[0].color;
        if t.players.len() >= 3 {
            let mut best = 0;
            for p in &t.players {
                let k = t.players.iter().filter(|q| q.color == p.color).count();
                if k > best {
                    best = k;
                    t.color = p.color;
                }
            }
        }
    }
    v.sort_by(|a, b| a.name.to_lowercase().cmp(&b.name.to_lowercase()).then(a.name.cmp(&b.name)));
    v
}

/// Same teams in the same order, where teams whose names differ only in case may be in any order.
pub fn same_teams(model: &[T], got: &[T]) -> bool {
    if model.len() != got.len() {
        return false;
    }
    let key = |t: &T| t.name.to_lowercase();
    if !got.windows(2).all(|w| key(&w[0]) <= key(&w[1])) {
        return false;
    }
    let mut g = got.to_vec();
    g.sort_by(|a, b| key(a).cmp(&key(b)).then(a.name.cmp(&b.name)));
    g == model
}
