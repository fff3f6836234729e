//! Every public function of the library on a byte string, as a table.
use mvdparser::all::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

pub type Func = (&'static str, fn(&[u8]) -> String);

fn r<T: Debug>(v: anyhow::Result<T>) -> String {
    match v {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("Err({e})"),
    }
}

fn m<K: Ord + Debug, V: Debug>(v: HashMap<K, V>) -> String {
    format!("{:?}", v.into_iter().collect::<BTreeMap<K, V>>())
}

fn rm<K: Ord + Debug, V: Debug>(v: anyhow::Result<HashMap<K, V>>) -> String {
    v.map(m).unwrap_or_else(|e| format!("Err({e})"))
}
fn v<T: Debug>(v: T) -> String {
    format!("{v:?}")
}

macro_rules! table {
    ($(($n:literal, $conv:ident, $d:ident, $e:expr),)*) => {
        /// results as text; the order of a list is part of it, the order of a map is not
        pub const FUNCS: &[Func] = &[$(($n, |$d| $conv($e)),)*];
        /// the same calls between two marks; only the call itself lies between them
        pub const MARKED: &[fn(&[u8], fn(), fn()) -> String] = &[$(|$d, on, off| {
            on();
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| std::hint::black_box($e)));
            off();
            match x {
                Ok(x) => $conv(x),
                Err(_) => "panicked".to_string(),
            }
        }),*];
        /// the same calls alone
        pub const CALLS: &[fn(&[u8])] = &[$(|$d| drop(std::hint::black_box($e)),)*];
    };
}

table! {
    ("clientinfo_strings", r, d, clientinfo_strings(d)),
    ("clientinfo", r, d, clientinfo(d)),
    ("clients", r, d, clients(d)),
    ("has_bot_players", r, d, has_bot_players(d)),
    ("has_human_players", r, d, has_human_players(d)),
    ("player_clients", r, d, player_clients(d)),
    ("player_names", r, d, player_names(d)),
    ("spectator_clients", r, d, spectator_clients(d)),
    ("spectator_names", r, d, spectator_names(d)),
    ("team_names", r, d, team_names(d)),
    ("countdown_duration", r, d, countdown_duration(d)),
    ("demo_duration", r, d, demo_duration(d)),
    ("match_duration", r, d, match_duration(d)),
    ("match_duration_from_seeking", r, d, match_duration_from_seeking(d)),
    ("match_duration_from_ktxstats", r, d, match_duration_from_ktxstats(d)),
    ("filename", r, d, mvdparser::filename(d)),
    ("flag_events_per_player_name", m, d, flag_events_per_player_name(d)),
    ("frags_per_player_name", m, d, frags_per_player_name(d)),
    ("ktxstats_v3", r, d, ktxstats_v3(d)),
    ("ktxstats_string", r, d, ktxstats_string(d)),
    ("matchdate", r, d, matchdate(d)),
    ("matchdate_string", r, d, matchdate_string(d)),
    ("ping_per_player_number", rm, d, ping_per_player_number(d)),
    ("players", r, d, players(d)),
    ("players_from_ktxstats", r, d, ktxstats_v3(d).and_then(|s| players_from_ktxstats(&s))),
    ("players_from_parsing", r, d, players_from_parsing(d)),
    ("prints", v, d, prints(d)),
    ("server", r, d, server(d)),
    ("serverinfo", r, d, serverinfo(d)),
    ("serverinfo_string", r, d, serverinfo_string(d)),
    ("teams", r, d, teams(d)),
    ("teams_from_ktxstats", r, d, ktxstats_v3(d).and_then(|s| teams_from_ktxstats(&s))),
    ("teams_from_players", r, d, players(d).map(|p| teams_from_players(&p))),
    ("timestamp", r, d, timestamp(d)),
    ("timestamp_from_epoch", r, d, timestamp_from_epoch(d)),
    ("is_valid", v, d, is_valid(d)),
    ("has_clients", v, d, has_clients(d)),
    ("has_end_of_demo_print", v, d, has_end_of_demo_print(d)),
    ("is_aborted", v, d, is_aborted(d)),
    ("is_paused", v, d, mvdparser::is_paused(d)),
}

pub fn index(name: &str) -> usize {
    FUNCS.iter().position(|f| f.0 == name).unwrap_or_else(|| panic!("no function {name}"))
}
