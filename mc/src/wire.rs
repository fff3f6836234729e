//! Encoder and decoder of MVD bytes, written from the protocol and independent of /repo's code.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Body {
    /// kinds 1 (read), 4 (single), 5 (stats), 6 (all): messages
    Msgs { kind: u8, player: u8, data: Vec<u8> },
    /// kind 3 with a player mask
    Multi { mask: u32, data: Vec<u8> },
    /// kind 2: two sequence numbers
    Set(u32, u32),
    /// kinds 0 and 7 have no body
    Bare { kind: u8, player: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Frame {
    pub ms: u8,
    pub body: Body,
}

impl Frame {
    pub fn all(ms: u8, data: Vec<u8>) -> Frame {
        Frame { ms, body: Body::Msgs { kind: 6, player: 0, data } }
    }
    pub fn to(ms: u8, kind: u8, player: u8, data: Vec<u8>) -> Frame {
        let body = match kind {
            3 => Body::Multi { mask: if player == 0 { 1 } else { 1 << (player & 31) }, data },
            1 | 4..=6 => Body::Msgs { kind, player, data },
            2 => Body::Set(player as u32, 0),
            _ => Body::Bare { kind, player },
        };
        Frame { ms, body }
    }
    /// internal data addressed to nobody: [length][type][number][content], the length counting number and content
    pub fn hidden(ms: u8, typ: u16, number: u16, content: &[u8]) -> Frame {
        let mut d = vec![];
        d.extend_from_slice(&((content.len() as u32) + 2).to_le_bytes());
        d.extend_from_slice(&typ.to_le_bytes());
        d.extend_from_slice(&number.to_le_bytes());
        d.extend_from_slice(content);
        Frame { ms, body: Body::Multi { mask: 0, data: d } }
    }
    pub fn hidden_raw(ms: u8, data: Vec<u8>) -> Frame {
        Frame { ms, body: Body::Multi { mask: 0, data } }
    }
    pub fn encode(&self, out: &mut Vec<u8>) {
        out.push(self.ms);
        match &self.body {
            Body::Msgs { kind, player, data } => {
                out.push(kind | player << 3);
                out.extend_from_slice(&(data.len() as u32).to_le_bytes());
                out.extend_from_slice(data);
            }
            Body::Multi { mask, data } => {
                out.push(3);
                out.extend_from_slice(&mask.to_le_bytes());
                out.extend_from_slice(&(data.len() as u32).to_le_bytes());
                out.extend_from_slice(data);
            }
            Body::Set(a, b) => {
                out.push(2);
                out.extend_from_slice(&a.to_le_bytes());
                out.extend_from_slice(&b.to_le_bytes());
            }
            Body::Bare { kind, player } => out.push(kind | player << 3),
        }
    }
    pub fn len(&self) -> usize {
        match &self.body {
            Body::Msgs { data, .. } => 6 + data.len(),
            Body::Multi { data, .. } => 10 + data.len(),
            Body::Set(..) => 10,
            Body::Bare { .. } => 2,
        }
    }
    /// Messages for the game client, if the frame carries any.
    pub fn messages(&self) -> Option<&[u8]> {
        match &self.body {
            Body::Msgs { data, .. } => Some(data),
            Body::Multi { mask, data } if *mask != 0 => Some(data),
            _ => None,
        }
    }
    pub fn has_body(&self) -> bool {
        match &self.body {
            Body::Msgs { data, .. } | Body::Multi { data, .. } => !data.is_empty(),
            Body::Set(..) => true,
            Body::Bare { .. } => false,
        }
    }
}

pub fn encode(frames: &[Frame]) -> Vec<u8> {
    let mut v = Vec::with_capacity(frames.iter().map(|f| f.len()).sum());
    for f in frames {
        f.encode(&mut v);
    }
    v
}

/// The complete frames of a recording; stops at the first incomplete one.
pub fn decode(d: &[u8]) -> Vec<Frame> {
    let mut v = vec![];
    let mut i = 0;
    let long = |i: usize| -> Option<u32> { Some(u32::from_le_bytes(d.get(i..i + 4)?.try_into().unwrap())) };
    while i + 2 <= d.len() {
        let (ms, cmd) = (d[i], d[i + 1]);
        let (kind, player) = (cmd & 7, cmd >> 3);
        let mut j = i + 2;
        let body = match kind {
            1 | 4..=6 => {
                let Some(n) = long(j) else { break };
                j += 4;
                let Some(data) = d.get(j..j + n as usize) else { break };
                j += n as usize;
                Body::Msgs { kind, player, data: data.to_vec() }
            }
            3 => {
                let (Some(mask), Some(n)) = (long(j), long(j + 4)) else { break };
                j += 8;
                let Some(data) = d.get(j..j + n as usize) else { break };
                j += n as usize;
                Body::Multi { mask, data: data.to_vec() }
            }
            2 => {
                let (Some(a), Some(b)) = (long(j), long(j + 4)) else { break };
                j += 8;
                Body::Set(a, b)
            }
            _ => Body::Bare { kind, player },
        };
        v.push(Frame { ms, body });
        i = j;
    }
    v
}

/// server messages
pub mod msg {
    pub fn print(level: u8, text: &[u8]) -> Vec<u8> {
        let mut v = vec![8, level];
        v.extend_from_slice(text);
        v.push(0);
        v
    }
    pub fn stufftext(text: &[u8]) -> Vec<u8> {
        let mut v = vec![9];
        v.extend_from_slice(text);
        v.push(0);
        v
    }
    pub fn frags(slot: u8, frags: i16) -> Vec<u8> {
        let mut v = vec![14, slot];
        v.extend_from_slice(&frags.to_le_bytes());
        v
    }
    pub fn ping(slot: u8, ping: u16, pl: u8) -> Vec<u8> {
        let mut v = vec![36, slot];
        v.extend_from_slice(&ping.to_le_bytes());
        v.extend_from_slice(&[53, slot, pl]);
        v
    }
    pub fn entertime(slot: u8, t: f32) -> Vec<u8> {
        let mut v = vec![37, slot];
        v.extend_from_slice(&t.to_le_bytes());
        v
    }
    pub fn userinfo(slot: u8, uid: u32, info: &[u8]) -> Vec<u8> {
        let mut v = vec![40, slot];
        v.extend_from_slice(&uid.to_le_bytes());
        v.extend_from_slice(info);
        v.push(0);
        v
    }
    pub fn serverinfo(key: &[u8], val: &[u8]) -> Vec<u8> {
        let mut v = vec![52];
        v.extend_from_slice(key);
        v.push(0);
        v.extend_from_slice(val);
        v.push(0);
        v
    }
    pub fn lightstyle(i: u8, s: &[u8]) -> Vec<u8> {
        let mut v = vec![12, i];
        v.extend_from_slice(s);
        v.push(0);
        v
    }
}

#[derive(Clone, Debug)]
pub struct Client {
    pub slot: u8,
    pub uid: u32,
    pub info: Vec<u8>,
}

impl Client {
    pub fn new(slot: u8, info: &[u8]) -> Client {
        Client { slot, uid: 100 + slot as u32, info: info.to_vec() }
    }
    pub fn named(slot: u8, name: &str, team: &str) -> Client {
        Client::new(slot, &latin1(&format!("\\name\\{name}\\team\\{team}\\topcolor\\4\\bottomcolor\\12")))
    }
}

/// chars U+0000..U+00FF to bytes
pub fn latin1(s: &str) -> Vec<u8> {
    s.chars().map(|c| {
        assert!((c as u32) < 256);
        c as u32 as u8
    }).collect()
}

pub fn unlatin1(b: &[u8]) -> String {
    b.iter().map(|b| *b as char).collect()
}

/// The opening of a recording as the server writes it: server data with the full serverinfo, model
/// and sound lists, the spawn command, then per slot frags, ping, packet loss, enter time and userinfo,
/// then light styles.
#[derive(Clone, Debug)]
pub struct Opening {
    pub serverinfo: Vec<u8>,
    pub clients: Vec<Client>,
    pub slots: u8,
    /// bytes of padding in front of the fullserverinfo text
    pub pad: usize,
    pub frame_size: usize,
    /// light styles at the end
    pub styles: u8,
}

impl Default for Opening {
    fn default() -> Self {
        Opening {
            serverinfo: b"\\maxfps\\77\\*version\\MVDSV 0.36\\map\\dm2\\mode\\2on2\\hostname\\test server".to_vec(),
            clients: vec![],
            slots: 32,
            pad: 0,
            frame_size: 700,
            styles: 64,
        }
    }
}

impl Opening {
    pub fn with(clients: Vec<Client>) -> Opening {
        Opening { clients, ..Default::default() }
    }
    pub fn frames(&self) -> Vec<Frame> {
        let mut v = vec![];
        // server data: protocol, server count, game dir, server time, level name, movement variables
        let mut b = vec![11];
        b.extend_from_slice(&28u32.to_le_bytes());
        b.extend_from_slice(&1u32.to_le_bytes());
        b.extend_from_slice(b"qw\0");
        b.extend_from_slice(&0f32.to_le_bytes());
        b.extend_from_slice(b"Level");
        b.extend(std::iter::repeat(b'x').take(self.pad));
        b.push(0);
        for f in [800f32, 100., 320., 500., 10., 0.7, 10., 4., 1., 1.] {
            b.extend_from_slice(&f.to_le_bytes());
        }
        let mut full = b"fullserverinfo \"".to_vec();
        full.extend_from_slice(&self.serverinfo);
        full.extend_from_slice(b"\"\n");
        b.extend(msg::stufftext(&full));
        v.push(Frame::all(0, b));
        let mut b = vec![46, 0];
        for i in 0..10 {
            b.extend_from_slice(format!("weapons/s{i}.wav\0").as_bytes());
        }
        b.extend_from_slice(&[0, 0]);
        v.push(Frame::all(0, b));
        let mut b = vec![45, 0];
        for i in 0..10 {
            b.extend_from_slice(format!("progs/m{i}.mdl\0").as_bytes());
        }
        b.extend_from_slice(&[0, 0]);
        b.extend(msg::stufftext(b"cmd spawn 1 0\n"));
        v.push(Frame::all(0, b));
        let mut cur = vec![];
        for s in 0..self.slots {
            let c = self.clients.iter().find(|c| c.slot == s);
            let mut b = msg::frags(s, 0);
            b.extend(msg::ping(s, if c.is_some() { 20 } else { 999 }, 0));
            b.extend(msg::entertime(s, 0.0));
            b.extend(msg::userinfo(s, c.map(|c| c.uid).unwrap_or(0), c.map(|c| &c.info[..]).unwrap_or(b"")));
            if !cur.is_empty() && cur.len() + b.len() > self.frame_size {
                v.push(Frame::all(0, std::mem::take(&mut cur)));
            }
            cur.extend(b);
        }
        for i in 0..self.styles {
            let b = msg::lightstyle(i, b"mmnmmommommnonmmonqnmmo");
            if !cur.is_empty() && cur.len() + b.len() > self.frame_size {
                v.push(Frame::all(0, std::mem::take(&mut cur)));
            }
            cur.extend(b);
        }
        v.push(Frame::all(0, cur));
        v
    }
}

pub fn end_of_demo() -> Frame {
    let mut b = vec![2];
    b.extend_from_slice(b"EndOfDemo\0");
    Frame::all(0, b)
}

/// A stats report split into blocks; `cuts` are the split positions.
pub fn report_frames(doc: &[u8], cuts: &[usize]) -> Vec<Frame> {
    let mut v = vec![];
    let mut from = 0;
    let mut ends: Vec<usize> = cuts.iter().copied().filter(|c| *c < doc.len()).collect();
    ends.push(doc.len());
    let n = ends.len();
    for (i, to) in ends.into_iter().enumerate() {
        v.push(Frame::hidden(0, 3, (n - 1 - i) as u16, &doc[from..to]));
        from = to;
    }
    v
}
