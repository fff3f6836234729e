//! The obituary and flag wordings of the game, as the reference knows them
//! (from the QuakeWorld fragfile), with who scores what.
use crate::model::Score;

pub const DEATHS: [&str; 17] = [
    " sleeps with the fishes", " sucks it down", " gulped a load of slime", " can't exist on slime alone",
    " burst into flames", " turned into hot slag", " visits the Volcano God", " cratered",
    " fell to his death", " fell to her death", " blew up", " was spiked", " was zapped",
    " ate a lavaball", " died", " tried to leave", " was squished",
];
pub const WEAPON_SUICIDES: [&str; 11] = [
    " tries to put the pin back in", " becomes bored with life", " discovers blast radius",
    " electrocutes himself", " electrocutes herself", " railcutes himself", " railcutes herself",
    " discharges into the slime", " discharges into the lava", " discharges into the water", " heats up the water",
];
pub const NAMED_TEAMKILLS: [&str; 6] = [
    " squished a teammate", " mows down a teammate", " checks his glasses", " checks her glasses",
    " gets a frag for the other team", " loses another friend",
];
pub const UNNAMED_TEAMKILLS: [&str; 6] = [
    " was telefragged by his teammate", " was telefragged by her teammate",
    " was crushed by his teammate", " was crushed by her teammate",
    " was jumped by his teammate", " was jumped by her teammate",
];
/// killer first
pub const KILLS_KV: [(&str, &str); 3] = [(" stomps ", ""), (" squishes ", ""), (" rips ", " a new one")];
/// victim first
pub const KILLS_VK: [(&str, &str); 28] = [
    (" was ax-murdered by ", ""), (" softens ", "'s fall"), (" tried to catch ", ""), (" was crushed by ", ""),
    (" was jumped by ", ""), (" chewed on ", "'s boomstick"), (" was body pierced by ", ""), (" was nailed by ", ""),
    (" was railed by ", ""), (" was telefragged by ", ""), (" accepts ", "'s discharge"), (" drains ", "'s batteries"),
    (" was lead poisoned by ", ""), (" accepts ", "'s shaft"), (" ate 2 loads of ", "'s buckshot"),
    (" was perforated by ", ""), (" was punctured by ", ""), (" was ventilated by ", ""),
    (" ate 8 loads of ", "'s buckshot"), (" gets a natural disaster from ", ""), (" rides ", "'s rocket"),
    (" was gibbed by ", "'s rocket"), (" was straw-cuttered by ", ""), (" eats ", "'s pineapple"),
    (" was gibbed by ", "'s grenade"), (" was brutalized by ", "'s quad rocket"),
    (" was smeared by ", "'s quad rocket"), (" was hooked by ", ""),
];

/// every wording with a text maker: (a, b) names to text; b is the other player where there is one
pub const N_WORDINGS: usize = 17 + 11 + 1 + 6 + 6 + 3 + 28;

/// text (without newline) and effect of wording i between a killer/actor `a` and another player `b`
pub fn wording(i: usize, a: &str, b: &str) -> (String, Score) {
    let mut i = i;
    if i < DEATHS.len() {
        return (format!("{a}{}", DEATHS[i]), Score::Add(a.into(), -1));
    }
    i -= DEATHS.len();
    if i < WEAPON_SUICIDES.len() {
        return (format!("{a}{}", WEAPON_SUICIDES[i]), Score::Add(a.into(), -1));
    }
    i -= WEAPON_SUICIDES.len();
    if i == 0 {
        return (format!("{a} suicides"), Score::Add(a.into(), -2));
    }
    i -= 1;
    if i < NAMED_TEAMKILLS.len() {
        return (format!("{a}{}", NAMED_TEAMKILLS[i]), Score::Add(a.into(), -1));
    }
    i -= NAMED_TEAMKILLS.len();
    if i < UNNAMED_TEAMKILLS.len() {
        return (format!("{a}{}", UNNAMED_TEAMKILLS[i]), Score::Unnamed(a.into()));
    }
    i -= UNNAMED_TEAMKILLS.len();
    if i < KILLS_KV.len() {
        let (m, e) = KILLS_KV[i];
        return (format!("{a}{m}{b}{e}"), Score::Add(a.into(), 1));
    }
    i -= KILLS_KV.len();
    let (m, e) = KILLS_VK[i];
    (format!("{b}{m}{a}{e}"), Score::Add(a.into(), 1))
}

/// In how many ways a text can be read as an obituary.
pub fn readings(t: &str) -> usize {
    let count = |t: &str, p: &str| (0..t.len()).filter(|i| t.as_bytes()[*i..].starts_with(p.as_bytes())).count();
    let mut n = t.ends_with(" suicides") as usize;
    for l in [&DEATHS[..], &WEAPON_SUICIDES, &NAMED_TEAMKILLS, &UNNAMED_TEAMKILLS] {
        n += l.iter().map(|p| count(t, p)).sum::<usize>();
    }
    for (m, e) in KILLS_KV.iter().chain(KILLS_VK.iter()) {
        for i in (0..t.len()).filter(|i| t.as_bytes()[*i..].starts_with(m.as_bytes())) {
            n += (t.len() - i >= m.len() + e.len() && t.ends_with(e)) as usize;
        }
    }
    n
}

/// Reads an obituary text (used on real recordings only, where histories come as text).
pub fn read(text: &str) -> Score {
    let t = text.trim_end_matches(['\n', '\r', ' ', '\t']);
    let tail = |l: &[&str]| l.iter().find_map(|s| t.strip_suffix(s).map(|n| n.to_string()));
    if let Some(n) = tail(&UNNAMED_TEAMKILLS) {
        return Score::Unnamed(n);
    }
    if let Some(n) = tail(&NAMED_TEAMKILLS).or_else(|| tail(&WEAPON_SUICIDES)).or_else(|| tail(&DEATHS)) {
        return Score::Add(n, -1);
    }
    if let Some(n) = t.strip_suffix(" suicides") {
        return Score::Add(n.to_string(), -2);
    }
    for (m, e) in KILLS_KV {
        if let (Some(at), true) = (t.find(m), t.ends_with(e)) {
            return Score::Add(t[..at].to_string(), 1);
        }
    }
    for (m, e) in KILLS_VK {
        if let (Some(at), true) = (t.find(m), t.ends_with(e)) {
            return Score::Add(t[at + m.len()..t.len() - e.len()].to_string(), 1);
        }
    }
    Score::None
}

pub const FLAG_KINDS: [&str; 7] = ["captures", "pickups", "returns", "carrier_frags", "defends", "carrier_defends", "carrier_defends_vs_aggressive"];

/// (kind index, texts)
pub const FLAGS: [(usize, [&str; 2]); 7] = [
    (0, [" ãáðôõòåä the ÒÅÄ flag!\n", " ãáðôõòåä the ÂÌÕÅ flag!\n"]),
    (1, [" çïô the ÒÅÄ flag!\n", " çïô the ÂÌÕÅ flag!\n"]),
    (2, [" òåôõòîåä the ÒÅÄ flag!\n", " òåôõòîåä the ÂÌÕÅ flag!\n"]),
    (3, [" gets an assist for returning his flag!\n", " gets an assist for fragging the flag carrier!\n"]),
    (4, [" defends the ÒÅÄ flag\n", " defends the ÂÌÕÅ flag\n"]),
    (5, [" defends ÒÅÄ's flag carrier\n", " defends ÂÌÕÅ's flag carrier\n"]),
    (6, [" defends ÒÅÄ's flag carrier against an aggressive enemy\n", " defends ÂÌÕÅ's flag carrier against an aggressive enemy\n"]),
];
