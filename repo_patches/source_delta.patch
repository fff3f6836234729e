From 155f96ee44eb780ea1eb7334085448d89df63762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 01/28] fix: frame::Info: compare the frame size with the
 remaining data

The size was compared with the length of the whole buffer, so a frame cut
off at the end of a recording gave a body range outside the data and every
function that walks frames panicked.
---
 src/qw/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index 8dab71e..b14f825 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -48,7 +48,7 @@ impl Info {
         let header_size = cur.position() as usize;
         let size = header_size + body_size;
 
-        if data.len() < size {
+        if data.len() - index < size {
             return Err(e!("Frame is smaller than expected size"));
         }
 
-- 
2.43.0


From 139114ef7e736d4e48d418bd8b9cdcd36d792fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 02/28] fix: serverinfo_string: do not slice past the end of
 short data

---
 src/serverinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serverinfo.rs b/src/serverinfo.rs
index 2e29027..8fe3655 100644
--- a/src/serverinfo.rs
+++ b/src/serverinfo.rs
@@ -11,7 +11,7 @@ pub fn serverinfo_string(data: &[u8]) -> Result<String> {
     const MAX_OFFSET: usize = 256;
     const MAX_SIZE: usize = 1024;
     let Some((from, to)) = bytesextra::offsets_between(
-        &data[..MAX_OFFSET + MAX_SIZE],
+        &data[..data.len().min(MAX_OFFSET + MAX_SIZE)],
         br#"fullserverinfo ""#,
         &[b'"'],
     ) else {
-- 
2.43.0


From 27168c43dc9aa3746a5e32ef0ccd0c1c98bcd7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 03/28] fix: clientinfo_strings: do not look past the end of
 the data

---
 src/clientinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index cfd775e..a204d25 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -24,7 +24,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
 
     let mut result: Vec<String> = vec![];
 
-    while let Some(name_offset) = data[offset..offset + MAX_LOOKAHEAD]
+    while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
         .map(|o| offset + o)
     {
-- 
2.43.0


From de64c3ee58417781276b79bcdad6d48987b61a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 04/28] fix: matchdate: a multi-byte character in the date is
 an error, not a panic

---
 src/matchdate.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/matchdate.rs b/src/matchdate.rs
index 7cd32dd..4ee39cb 100644
--- a/src/matchdate.rs
+++ b/src/matchdate.rs
@@ -18,11 +18,16 @@ pub fn matchdate(data: &[u8]) -> Result<DateTime<Utc>> {
 }
 
 fn replace_tz_abbr_with_offset(timestamp: &str) -> Result<String> {
-    let tz_abbr = &timestamp[DATETIME_LEN + 1..];
+    let (Some(datetime), Some(tz_abbr)) = (
+        timestamp.get(..DATETIME_LEN),
+        timestamp.get(DATETIME_LEN + 1..),
+    ) else {
+        return Err(e!("Invalid matchdate"));
+    };
     let Some(tz_offset) = timezone::utc_offset(tz_abbr) else {
         return Err(e!("Invalid timezone abbreviation"));
     };
-    Ok(format!("{}{}", &timestamp[..DATETIME_LEN], tz_offset))
+    Ok(format!("{}{}", datetime, tz_offset))
 }
 
 pub fn matchdate_string(data: &[u8]) -> Result<String> {
-- 
2.43.0


From 6f50623d1f6a3ec632ee478b130a31f48bb21144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 05/28] fix: durations: sum frame times without overflow or
 rounding

Single precision loses milliseconds from about 4.6 hours, and the 32-bit sum
overflows.
---
 src/duration.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 9e876ac..dc84991 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -59,18 +59,18 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
     let mut index = 0;
-    let mut total_ms: u32 = 0;
+    let mut total_ms: u64 = 0;
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
         if index >= target_offset {
             break;
         }
 
-        total_ms += frame_info.duration;
+        total_ms += frame_info.duration as u64;
         index += frame_info.size;
     }
 
-    Duration::from_secs_f32(total_ms as f32 / 1000.0)
+    Duration::from_millis(total_ms)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 85b61cd7919a85560d15ce88fba1526d7536859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 06/28] fix: match_duration_from_seeking: no panic if the
 countdown ends after the match

The last end of match may precede the first matchdate, e.g. when the
recording starts before the end of the previous match.
---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index dc84991..170e4d7 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -43,7 +43,7 @@ pub fn match_duration(data: &[u8]) -> Result<Duration> {
 pub fn match_duration_from_seeking(data: &[u8]) -> Result<Duration> {
     let end = demo_duration(data)?;
     let begin = countdown_duration(data).unwrap_or(Duration::ZERO);
-    Ok(end - begin)
+    Ok(end.saturating_sub(begin))
 }
 
 pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
-- 
2.43.0


From c7b3f10a7bc3690b4f62bd5c1f5d4211a731ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 07/28] fix: match_duration_from_ktxstats: a duration out of
 range is an error, not a panic

---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 170e4d7..fdcc00f 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -54,7 +54,7 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
         return Err(e!("Duration not found in ktxstats"));
     };
     let duration_f: f64 = ktxstats_s[from..to].parse()?;
-    Ok(Duration::from_secs_f64(duration_f))
+    Ok(Duration::try_from_secs_f64(duration_f)?)
 }
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
-- 
2.43.0


From 609bf9adf79ba4f3a16a3a521c92c528f78c3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 08/28] fix: ping_per_player_number: sum pings without overflow

---
 src/ping.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ping.rs b/src/ping.rs
index 2d0fc13..f131f4a 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -51,8 +51,8 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut average_ping: HashMap<u8, u32> = HashMap::new();
 
     for (pnum, pings) in total_pings.iter() {
-        let pings_sum = pings.iter().sum::<u16>();
-        let avg_ping = (pings_sum as f32 / pings.len() as f32) as u32;
+        let pings_sum = pings.iter().map(|p| *p as u64).sum::<u64>();
+        let avg_ping = (pings_sum / pings.len() as u64) as u32;
         average_ping.insert(*pnum, avg_ping);
     }
 
-- 
2.43.0


From dc051678b111164848227c58bb3586b37065aee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 09/28] fix: flags: count more than 255 events per player

---
 src/flags.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 9caeeb8..bce6c8a 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -12,13 +12,13 @@ use crate::qw::prot::{MessageType, PrintId};
 
 #[derive(Debug, Default, PartialEq, Eq)]
 pub struct PlayerFlagEvents {
-    captures: u8,
-    pickups: u8,
-    returns: u8,
-    carrier_frags: u8,
-    defends: u8,
-    carrier_defends: u8,
-    carrier_defends_vs_aggressive: u8,
+    captures: u32,
+    pickups: u32,
+    returns: u32,
+    carrier_frags: u32,
+    defends: u32,
+    carrier_defends: u32,
+    carrier_defends_vs_aggressive: u32,
 }
 
 pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEvents> {
-- 
2.43.0


From a86e28b4117801c35e201eb9449c988e87d3c888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 10/28] fix: ktxstats_string: a damaged or cut-off report is an
 error

It panicked (arithmetic underflow, slices outside the data) or returned a part
of the report, depending on where the report was cut.
---
 src/ktxstats.rs | 19 +++++++++++++------
 src/qw/block.rs |  6 ++++--
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/ktxstats.rs b/src/ktxstats.rs
index 50f839c..598c462 100644
--- a/src/ktxstats.rs
+++ b/src/ktxstats.rs
@@ -15,20 +15,27 @@ pub fn ktxstats_v3(data: &[u8]) -> Result<KtxstatsV3> {
 pub fn ktxstats_string(data: &[u8]) -> Result<String> {
     const TOTAL_HEADER_SIZE: usize = frame::MULTI_HEADER_SIZE + block::HEADER_SIZE;
 
-    let Some(mut offset) = data.rfind(br#"{"version": "#) else {
+    let Some(mut offset) = data
+        .rfind(br#"{"version": "#)
+        .and_then(|o| o.checked_sub(TOTAL_HEADER_SIZE))
+    else {
         return Err(e!("ktxstats not found"));
     };
-    offset -= TOTAL_HEADER_SIZE;
     let mut content = Vec::new();
 
-    // read blocks
-    while let Ok(info) = block::Info::try_from(&data[offset + frame::MULTI_HEADER_SIZE..]) {
+    // read blocks, the last one has number 0
+    loop {
+        let header = data.get(offset + frame::MULTI_HEADER_SIZE..);
+        let info = block::Info::try_from(header.unwrap_or_default())?;
         if info.hidden_message != HiddenMessage::Demoinfo {
-            break;
+            return Err(e!("ktxstats are incomplete"));
         }
 
         offset += TOTAL_HEADER_SIZE;
-        content.extend_from_slice(&data[offset..offset + info.body_size]);
+        let Some(body) = data.get(offset..offset + info.body_size) else {
+            return Err(e!("ktxstats are incomplete"));
+        };
+        content.extend_from_slice(body);
 
         if info.number == 0 {
             break;
diff --git a/src/qw/block.rs b/src/qw/block.rs
index db73330..e01b2fe 100644
--- a/src/qw/block.rs
+++ b/src/qw/block.rs
@@ -1,6 +1,6 @@
 use std::io::Cursor;
 
-use crate::qw::primitives::{numsize, ReadPrimitives};
+use crate::qw::primitives::{err_other, numsize, ReadPrimitives};
 use crate::qw::prot::HiddenMessage;
 
 pub const HEADER_SIZE: usize = numsize::LONG + 2 * numsize::SHORT;
@@ -19,7 +19,9 @@ impl TryFrom<&[u8]> for Info {
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
         let mut cur = Cursor::new(value);
         // exclude block number bytes from size
-        let body_size = cur.read_u32()? as usize - numsize::SHORT;
+        let body_size = (cur.read_u32()? as usize)
+            .checked_sub(numsize::SHORT)
+            .ok_or_else(|| err_other("block is smaller than its header"))?;
 
         Ok(Info {
             body_size,
-- 
2.43.0


From 608ab731a7bc2a0caa85a6d2edc1832be808aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 11/28] fix: team color: resolve ties by player order

A tie was resolved by the iteration order of a hash map, which differs from
run to run, and 256 players of a color overflowed the count.
---
 src/team.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index dbb4d18..3466637 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -64,7 +64,7 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
         _ => {}
     };
 
-    let mut color_count: HashMap<[u8; 2], u8> = HashMap::new();
+    let mut color_count: HashMap<[u8; 2], usize> = HashMap::new();
     for color in colors.iter() {
         let count = color_count.entry(*color).or_insert(0);
         *count += 1;
@@ -72,10 +72,12 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
 
     let mut max_color = None;
     let mut max_count = 0;
-    for (color, count) in color_count.iter() {
-        if *count > max_count {
+    // in player order, so that a tie does not depend on the order of the map
+    for color in colors.iter() {
+        let count = color_count[color];
+        if count > max_count {
             max_color = Some(*color);
-            max_count = *count;
+            max_count = count;
         }
     }
 
-- 
2.43.0


From dc6f0bd5b52348ec1aa56ae001d5a420e36a90bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 12/28] fix: teams: fixed order of names that differ only in
 case

Their order was that of a hash map, which differs from run to run.
---
 src/team.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/team.rs b/src/team.rs
index 3466637..3690627 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -52,7 +52,12 @@ pub fn teams_from_players(players: &[Player]) -> Vec<Team> {
         teams.push(Team::from(teamplayers.as_slice()))
     }
 
-    teams.sort_by(|a, b| a.name.to_lowercase().cmp(&b.name.to_lowercase()));
+    teams.sort_by(|a, b| {
+        a.name
+            .to_lowercase()
+            .cmp(&b.name.to_lowercase())
+            .then_with(|| a.name.cmp(&b.name))
+    });
 
     teams
 }
-- 
2.43.0


From c9905aae66fd37684d78912d0b3e8ef0b122a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 13/28] fix: players_from_parsing: fixed order of players with
 equal frags and name

Their order was that of a hash map, which differs from run to run.
---
 src/players.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/players.rs b/src/players.rs
index 0214868..c48d0b9 100644
--- a/src/players.rs
+++ b/src/players.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use anyhow::Result;
 use ktxstats::v3::KtxstatsV3;
@@ -28,7 +28,7 @@ pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
     let clients = clients(data)?;
     let pings = ping_per_player_number(data)?;
     let frags = frags_per_player_name(data);
-    let mut pmap: HashMap<u8, Player> = HashMap::new();
+    let mut pmap: BTreeMap<u8, Player> = BTreeMap::new();
 
     for c in clients.iter().filter(|c| !c.is_spectator) {
         let player = Player {
-- 
2.43.0


From d4bfe3c2d9b9e1546c0c0f33623c1096e4882334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 14/28] fix: clients: player numbers are the recorded slots,
 also with empty slots in between

---
 src/clientinfo.rs | 17 +++++++++++++++--
 src/clients.rs    | 10 +++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index a204d25..97ffc64 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -11,6 +11,14 @@ pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
 }
 
 pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
+    Ok(numbered_clientinfo_strings(data)?
+        .into_iter()
+        .map(|(_, info)| info)
+        .collect())
+}
+
+/// Client info strings with the player number of the [UpdateUserinfo] message they are part of.
+pub(crate) fn numbered_clientinfo_strings(data: &[u8]) -> Result<Vec<(Option<u8>, String)>> {
     const CMD_SPAWN: [u8; 0x0A] = [0x09, 0x63, 0x6D, 0x64, 0x20, 0x73, 0x70, 0x61, 0x77, 0x6E];
 
     let Some(mut offset) = data.find(CMD_SPAWN) else {
@@ -22,7 +30,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
     const MIN_LEN: usize = r#"\name\ "#.len();
     const MAX_LEN: usize = 256;
 
-    let mut result: Vec<String> = vec![];
+    let mut result: Vec<(Option<u8>, String)> = vec![];
 
     while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
@@ -40,7 +48,12 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
             break;
         }
 
-        result.push(quake_text::bytestr::to_unicode(&data[from..to]));
+        // [UpdateUserinfo] [byte] player number [long] user id [string] client info
+        let number = match from.checked_sub(6).map(|o| &data[o..from]) {
+            Some([40, number, ..]) => Some(*number),
+            _ => None,
+        };
+        result.push((number, quake_text::bytestr::to_unicode(&data[from..to])));
         offset = to;
 
         if offset >= max_offset {
diff --git a/src/clients.rs b/src/clients.rs
index 48710fd..4484e17 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -3,15 +3,15 @@ use bstr::ByteSlice;
 use quake_text::unicode;
 
 use crate::client::Client;
-use crate::clientinfo;
+use crate::clientinfo::{self, Clientinfo};
 
 pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
-    let clients: Vec<Client> = clientinfo::clientinfo(data)?
+    let clients: Vec<Client> = clientinfo::numbered_clientinfo_strings(data)?
         .iter()
         .enumerate()
-        .map(|(number, info)| {
-            let mut client = Client::from(info);
-            client.number = number as u8;
+        .map(|(index, (number, info))| {
+            let mut client = Client::from(&Clientinfo::from(info.as_str()));
+            client.number = number.unwrap_or(index as u8);
             client
         })
         .collect();
-- 
2.43.0


From 3b8ec0ca10468cc70ae4d22bbb0c7332c61d53c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 15/28] fix: players_from_ktxstats: a negative ping counts as 0

---
 src/player.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/player.rs b/src/player.rs
index a89465b..67c3fc2 100644
--- a/src/player.rs
+++ b/src/player.rs
@@ -26,7 +26,7 @@ impl From<&ktxstats::v3::Player> for Player {
             team: player.team.clone(),
             color: [player.top_color as u8, player.bottom_color as u8],
             frags: player.stats.frags,
-            ping: player.ping as u32,
+            ping: player.ping.max(0) as u32,
             is_bot: player.bot.is_some() || player.ping == BOT_PING,
             auth_username,
             auth_cc: None,
-- 
2.43.0


From 043c4d3d725cf83165c653d8a19ca8e794a528ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 16/28] fix: teams: sum frags and pings without overflow or
 rounding

---
 src/team.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index 3690627..32fa0af 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -27,11 +27,14 @@ impl From<&[Player]> for Team {
 
         for player in players.iter() {
             team.players.push(player.clone());
-            team.frags += player.frags;
-            team.ping += player.ping;
         }
 
-        team.ping = (team.ping as f32 / team.players.len() as f32).round() as u32;
+        let frags: i64 = players.iter().map(|p| p.frags as i64).sum();
+        team.frags = frags.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
+
+        let ping: u64 = players.iter().map(|p| p.ping as u64).sum();
+        team.ping = (ping as f64 / players.len() as f64).round() as u32;
+
         let player_colors: Vec<[u8; 2]> = team.players.iter().map(|p| p.color).collect();
         team.color = majority_color(&player_colors).unwrap_or(players[0].color);
 
-- 
2.43.0


From 651ec5fd15621b9ce89bfe7951a17812ef2e95e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 17/28] fix: frags: keep trailing characters of names that look
 like white space

---
 src/frags.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frags.rs b/src/frags.rs
index dcd8d0a..e9a1bcd 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -43,7 +43,8 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     for (print, frame_info) in print_frames {
         let content_u = quake_text::bytestr::to_unicode(&print.content);
 
-        match FragEvent::try_from(content_u.trim_end()) {
+        // names may end with characters that are white space in unicode (0x85, 0xA0)
+        match FragEvent::try_from(content_u.trim_end_matches(|c: char| c.is_ascii_whitespace())) {
             Ok(event) => match event {
                 FragEvent::Frag { killer, .. } => {
                     let killer = frags.entry(killer).or_insert(0);
-- 
2.43.0


From efdb189f5e1b64a85af880661ef91a7e3b561439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 18/28] fix: frags: read all prints that open a frame, not just
 the first

---
 src/frags.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/frags.rs b/src/frags.rs
index e9a1bcd..25e77c1 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -24,7 +24,7 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
 
         let mut body = Cursor::new(&data[frame_info.clone().body_range]);
 
-        if body
+        while body
             .read_message_type()
             .is_ok_and(|t| t == MessageType::Print)
         {
@@ -98,14 +98,17 @@ fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<Stri
 
         let mut body = Cursor::new(&data[info.body_range.clone()]);
 
+        let mut message_type = body.read_message_type();
+
         if frame_count == 1 {
-            body.read_print().ok();
+            // skip the prints in front of the frag update
+            while matches!(message_type, Ok(MessageType::Print)) {
+                body.read_print().ok();
+                message_type = body.read_message_type();
+            }
         }
 
-        if body
-            .read_message_type()
-            .is_ok_and(|t| t == MessageType::UpdateFrags)
-        {
+        if message_type.is_ok_and(|t| t == MessageType::UpdateFrags) {
             if let Ok(u) = body.read_update_frags() {
                 frag_update_player_numbers.push(u.player_number);
             }
-- 
2.43.0


From 32578788c383cac02a572526b6b2a522beb25c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 19/28] fix: do not read sequence numbers and internal data
 blocks as server messages

---
 src/flags.rs    | 10 ++++++----
 src/frags.rs    |  8 ++++----
 src/ping.rs     |  4 ++--
 src/prints.rs   |  4 ++--
 src/qw/frame.rs | 14 ++++++++++++++
 5 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index bce6c8a..e6dc30b 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -27,13 +27,15 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
     let mut prints: Vec<Vec<u8>> = vec![];
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
-        if frame_info.body_size == 0 || data[frame_info.clone().body_range].find(b"flag").is_none()
-        {
+        let Some(messages) = frame_info
+            .messages(data)
+            .filter(|m| m.find(b"flag").is_some())
+        else {
             index += frame_info.size;
             continue;
-        }
+        };
 
-        let mut body = Cursor::new(&data[frame_info.clone().body_range]);
+        let mut body = Cursor::new(messages);
         let mut current_print: Vec<u8> = vec![];
 
         while let Ok(mt) = body.read_message_type() {
diff --git a/src/frags.rs b/src/frags.rs
index 25e77c1..700f646 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -17,12 +17,12 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     let mut print_frames: Vec<(Print, frame::Info)> = vec![];
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
-        if frame_info.body_size == 0 {
+        let Some(messages) = frame_info.messages(data) else {
             index += frame_info.size;
             continue;
-        }
+        };
 
-        let mut body = Cursor::new(&data[frame_info.clone().body_range]);
+        let mut body = Cursor::new(messages);
 
         while body
             .read_message_type()
@@ -96,7 +96,7 @@ fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<Stri
             continue;
         }
 
-        let mut body = Cursor::new(&data[info.body_range.clone()]);
+        let mut body = Cursor::new(info.messages(data).unwrap_or_default());
 
         let mut message_type = body.read_message_type();
 
diff --git a/src/ping.rs b/src/ping.rs
index f131f4a..ba51d54 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -15,8 +15,8 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut total_pings: HashMap<u8, Vec<u16>> = HashMap::new();
 
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
-        if info.body_size > 0 {
-            let mut body = Cursor::new(&data[info.body_range.clone()]);
+        if let Some(messages) = info.messages(data) {
+            let mut body = Cursor::new(messages);
             let mut did_ping_update = false;
 
             while body
diff --git a/src/prints.rs b/src/prints.rs
index da62734..79c91bb 100644
--- a/src/prints.rs
+++ b/src/prints.rs
@@ -11,8 +11,8 @@ pub fn prints(data: &[u8]) -> Vec<Print> {
     let mut prints: Vec<Print> = Vec::new();
 
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
-        if info.body_size > 0 {
-            let mut body = Cursor::new(&data[info.body_range]);
+        if let Some(messages) = info.messages(data) {
+            let mut body = Cursor::new(messages);
 
             while body
                 .read_message_type()
diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index b14f825..6eb4f65 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -64,6 +64,20 @@ impl Info {
             body_range: index + header_size..index + size,
         })
     }
+
+    /// Server messages of the frame. `None` if it has no body, or a body of another kind: sequence
+    /// numbers, or internal data blocks (which are addressed to no player at all).
+    pub fn messages<'a>(&self, data: &'a [u8]) -> Option<&'a [u8]> {
+        const NO_PLAYERS: [u8; numsize::LONG] = [0; numsize::LONG];
+        let is_hidden = self.target == Target::Multiple
+            && data[self.header_range.clone()][numsize::SHORT..].starts_with(&NO_PLAYERS);
+
+        if self.body_size == 0 || self.command != Command::Read || is_hidden {
+            return None;
+        }
+
+        Some(&data[self.body_range.clone()])
+    }
 }
 
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From 8dead40106b4e829211725c97b70fa450a987572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 20/28] fix: team_names: no duplicates among teams that differ
 only in case or color

---
 src/clients.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/clients.rs b/src/clients.rs
index 4484e17..338a4cc 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -65,14 +65,16 @@ pub fn spectator_names(data: &[u8]) -> Result<Vec<String>> {
 }
 
 pub fn team_names(data: &[u8]) -> Result<Vec<String>> {
-    let mut names: Vec<String> = player_clients(data)?
-        .iter()
-        .map(|c| c.team.clone())
-        .collect();
+    let mut names: Vec<String> = vec![];
+
+    // names that only differ in case or color are sorted as equal, so dedup before sorting
+    for client in player_clients(data)? {
+        if !names.contains(&client.team) {
+            names.push(client.team);
+        }
+    }
 
-    names = unicode::sort(&names);
-    names.dedup();
-    Ok(names)
+    Ok(unicode::sort(&names))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1af5bd8e3965d029d421b072eca6309495eec46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 21/28] fix: timezone: an offset of one or three digits is
 unknown, not ten times its value

---
 src/timezone.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/timezone.rs b/src/timezone.rs
index bf047a9..12481e0 100644
--- a/src/timezone.rs
+++ b/src/timezone.rs
@@ -235,12 +235,14 @@ fn utc_offset_by_offset(offset: &str) -> Option<String> {
     };
 
     // support +xx and +xxxx
-    let offset = format!("{:0<4}", offset[1..].replace(':', ""));
+    let offset = offset[1..].replace(':', "");
 
-    if offset.len() != 4 {
+    if !matches!(offset.len(), 2 | 4) {
         return None;
     }
 
+    let offset = format!("{:0<4}", offset);
+
     // validate that number is between 0000 and 1200
     match offset.parse::<i32>() {
         Ok(number) if (0..=1200).contains(&number) => {
-- 
2.43.0


From a5238a710108ffd724a79ca4b5c8ea25d828d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 22/28] fix: only take the last " suicides" off an obituary,
 not those that are part of the name

---
 src/qw/fragevent.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qw/fragevent.rs b/src/qw/fragevent.rs
index 0ce857a..912c556 100644
--- a/src/qw/fragevent.rs
+++ b/src/qw/fragevent.rs
@@ -27,9 +27,9 @@ impl TryFrom<&str> for FragEvent {
             return Ok(FragEvent::SuicideByWeapon {
                 player: value[..pos].to_string(),
             });
-        } else if value.ends_with(X_SUICIDE) {
+        } else if let Some(player) = value.strip_suffix(X_SUICIDE) {
             return Ok(FragEvent::Suicide {
-                player: value.trim_end_matches(X_SUICIDE).to_string(),
+                player: player.to_string(),
             });
         } else if let Some(pos) = X_TEAMKILL_UNKNOWN.iter().find_map(|&p| value.find(p)) {
             return Ok(FragEvent::Teamkill {
-- 
2.43.0


From b84e079bebcb08cafec37c44620aac56dfe97a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 23/28] fix: end a killer's name where the obituary ends, not
 where the name contains the ending

---
 src/qw/fragevent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qw/fragevent.rs b/src/qw/fragevent.rs
index 912c556..4d5c070 100644
--- a/src/qw/fragevent.rs
+++ b/src/qw/fragevent.rs
@@ -60,7 +60,7 @@ fn pattern_match(value: &str, pattern: &str) -> Option<(String, String)> {
         true => {
             let (prefix, suffix) = pattern.split_once(WILDCARD)?;
             let (x, rest) = value.split_once(prefix)?;
-            let (y, _) = rest.split_once(suffix)?;
+            let y = rest.strip_suffix(suffix)?;
             (x, y)
         }
         false => value.split_once(pattern)?,
-- 
2.43.0


From 7478d2538a362a6811bce1f5744455545ee345ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 24/28] fix: count every flag message of a frame

A whole message in front of another one in the same frame was taken for a
player name: the second message was dropped or appended to the first.
---
 src/flags.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flags.rs b/src/flags.rs
index e6dc30b..b400eef 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -42,7 +42,10 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
             if mt == MessageType::Print {
                 if let Ok(p) = body.read_print() {
                     if p.id == PrintId::High && !p.content.is_empty() {
-                        if current_print.is_empty() {
+                        if current_print.ends_with(b"\n") {
+                            // a whole message, not a name to which a suffix belongs
+                            prints.push(std::mem::replace(&mut current_print, p.content));
+                        } else if current_print.is_empty() {
                             current_print.extend_from_slice(&p.content);
                         } else {
                             if is_message_suffix(&p.content) {
-- 
2.43.0


From 725408325d5cb22360c81a0ec7e538d464b412a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 25/28] fix: look up clients and nearby frag updates once, not
 once per unnamed team kill

---
 src/frags.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/frags.rs b/src/frags.rs
index 700f646..12fd0e3 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -3,6 +3,7 @@ use std::io::Cursor;
 
 use anyhow::{anyhow as e, Result};
 
+use crate::client::Client;
 use crate::clients;
 use crate::qw::fragevent::FragEvent;
 use crate::qw::frame;
@@ -39,6 +40,8 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     }
 
     let mut frags: HashMap<String, i32> = HashMap::new();
+    let clients = clients::clients(data).unwrap_or_default();
+    let mut nearby_updates: Option<(usize, Vec<u8>)> = None;
 
     for (print, frame_info) in print_frames {
         let content_u = quake_text::bytestr::to_unicode(&print.content);
@@ -67,10 +70,16 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
                     *killer -= 1;
                 }
                 FragEvent::TeamkillByUnknown { victim } => {
-                    if let Ok(name) = find_team_killer(data, frame_info.index, &victim) {
+                    // the same for all prints of a frame
+                    let player_numbers = match nearby_updates {
+                        Some((index, numbers)) if index == frame_info.index => numbers,
+                        _ => nearby_frag_updates(data, frame_info.index),
+                    };
+                    if let Ok(name) = find_team_killer(&clients, &player_numbers, &victim) {
                         let killer = frags.entry(name).or_insert(0);
                         *killer -= 1;
                     }
+                    nearby_updates = Some((frame_info.index, player_numbers));
                 }
             },
             Err(_e) => {
@@ -82,7 +91,7 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     frags
 }
 
-fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<String> {
+fn nearby_frag_updates(data: &[u8], index: usize) -> Vec<u8> {
     let mut index = index;
     let mut frame_count: usize = 1;
     let mut frag_update_player_numbers: Vec<u8> = vec![];
@@ -118,11 +127,18 @@ fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<Stri
         frame_count += 1;
     }
 
+    frag_update_player_numbers
+}
+
+fn find_team_killer(
+    clients: &[Client],
+    frag_update_player_numbers: &[u8],
+    victim_name: &str,
+) -> Result<String> {
     if frag_update_player_numbers.is_empty() {
         return Err(e!("Unable to find nearby frag updates"));
     }
 
-    let clients = clients::clients(data)?;
     let Some(victim_client) = clients.iter().find(|c| c.name == *victim_name) else {
         return Err(e!("Unable to find victim"));
     };
-- 
2.43.0


From c1e768397fa5b8f0464d81bdde2b74dcaad8d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 26/28] fix: a text without a line end does not swallow the
 flag message behind it

---
 src/flags.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index b400eef..0451b33 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -50,10 +50,11 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
                         } else {
                             if is_message_suffix(&p.content) {
                                 current_print.extend_from_slice(&p.content);
+                                prints.push(std::mem::take(&mut current_print));
+                            } else {
+                                // not a name after all, the next message begins here
+                                prints.push(std::mem::replace(&mut current_print, p.content));
                             }
-
-                            prints.push(current_print.clone());
-                            current_print = vec![];
                         }
                     }
                 }
@@ -120,7 +121,7 @@ fn is_message_suffix(print: &[u8]) -> bool {
     ]
     .iter()
     .flatten()
-    .any(|n| quake_text::bytestr::to_unicode(print).ends_with(n))
+    .any(|n| quake_text::bytestr::to_unicode(print) == *n)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5c53b365f8eb264a1589fbe20bfbf689ebd91c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:25 +0000
Subject: [PATCH 27/28] fix: players_from_parsing: a recording without ping
 samples has players, with a ping of 0

---
 src/players.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/players.rs b/src/players.rs
index c48d0b9..03d82fa 100644
--- a/src/players.rs
+++ b/src/players.rs
@@ -26,7 +26,7 @@ pub fn players_from_ktxstats(stats: &KtxstatsV3) -> Result<Vec<Player>> {
 
 pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
     let clients = clients(data)?;
-    let pings = ping_per_player_number(data)?;
+    let pings = ping_per_player_number(data).unwrap_or_default();
     let frags = frags_per_player_name(data);
     let mut pmap: BTreeMap<u8, Player> = BTreeMap::new();
 
-- 
2.43.0


From a47df5c35a32d5b59d1766912d53150b8d33b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:40 +0000
Subject: [PATCH 28/28] fix: timezone: a colon in an offset is only known
 between its hours and minutes

---
 src/timezone.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/timezone.rs b/src/timezone.rs
index 12481e0..8b02883 100644
--- a/src/timezone.rs
+++ b/src/timezone.rs
@@ -234,14 +234,14 @@ fn utc_offset_by_offset(offset: &str) -> Option<String> {
         }
     };
 
-    // support +xx and +xxxx
-    let offset = offset[1..].replace(':', "");
-
-    if !matches!(offset.len(), 2 | 4) {
-        return None;
-    }
-
-    let offset = format!("{:0<4}", offset);
+    // support +xx, +xxxx and +xx:xx
+    let offset = match offset[1..].split_once(':') {
+        Some((hours, minutes)) if hours.len() == 2 && minutes.len() == 2 => {
+            format!("{}{}", hours, minutes)
+        }
+        None if matches!(offset.len(), 3 | 5) => format!("{:0<4}", &offset[1..]),
+        _ => return None,
+    };
 
     // validate that number is between 0000 and 1200
     match offset.parse::<i32>() {
-- 
2.43.0

