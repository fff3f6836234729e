#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "No input crashes, aborts or hangs the parser",
  "Every public function, given any byte string whatever (damaged, truncated, hostile or not a recording at all), returns an ordinary value or an ordinary error: it never panics, aborts the process, overflows an integer or loops forever. The same holds for a well-formed recording of any length, however many events of one kind it accumulates.",
  ["inputs", "fault_sequences"],
  "all byte strings; explored: every string over a small alphabet up to a length, every sequence of structural tokens up to a depth, every single-byte fault, every length-field fault and every cut of synthesised recordings and of the real recordings' headers",
  "The tests feed eleven intact recordings and three constant buffers; none feeds a damaged length, a cut inside a header, a non-ASCII date or a negative duration.",
  ["src/qw/frame.rs", "src/ktxstats.rs", "src/clientinfo.rs", "src/serverinfo.rs", "src/matchdate.rs", "src/duration.rs", "src/ping.rs", "src/flags.rs", "src/team.rs"],
  [("bounds check of the frame header against the buffer", "src/qw/frame.rs Info::from_data_and_index"), ("Result-returning readers", "src/qw/primitives.rs ReadPrimitives"), ("length limits on client infos", "src/clientinfo.rs clientinfo_strings")],
  observe=["every function exported from the crate root and mvdparser::all"])

p("C02", "A cut-off recording reads as exactly its complete frames",
  "Cutting a recording at any byte (a crash or a download stopping at that point) makes prints, frag scores, flag tallies and pings exactly those of the frames that are complete before the cut, and makes the demo duration the time of those frames. The roster of the cut recording is a leading part of the full roster, never a garbled or invented client. A stats report that is not completely there is reported as missing, never returned in part.",
  ["crash_points", "histories"],
  "every byte position of every explored recording as the cut point",
  "No test cuts a recording anywhere but at a fixed 2000 or 5000 byte skip from the front; a cut inside a frame header, body or stats block is never tried.",
  ["src/qw/frame.rs", "src/prints.rs", "src/frags.rs", "src/flags.rs", "src/ping.rs", "src/duration.rs", "src/clientinfo.rs", "src/ktxstats.rs"],
  [("a frame whose body is not entirely in the buffer ends the walk", "src/qw/frame.rs Info::from_data_and_index"), ("terminator search for each info string", "src/clientinfo.rs clientinfo_strings")])

p("C03", "Prints come out complete, in order and byte for byte",
  "The list of prints is the sequence of the non-empty print messages that open each frame, in recording order, each with its own level (low, medium, high, chat) and its exact content bytes, for every frame target kind, player and time. A print equal in level and content to the one listed just before it (in the same frame or a later one) is listed once; otherwise none is lost, reordered, duplicated or altered.",
  ["histories", "inputs"],
  "all sequences of frames and messages up to the bounds",
  "The test checks the count and a few entries of two recordings; it cannot reach repeated prints across frames, empty prints, unusual targets or control bytes in every combination.",
  ["src/prints.rs", "src/qw/message/print.rs", "src/qw/primitives.rs", "src/qw/frame.rs", "src/qw/prot.rs"],
  [("leading-message loop and adjacent dedup", "src/prints.rs prints"), ("NUL-terminated byte string reader", "src/qw/primitives.rs read_bstring")])

p("C04", "Traffic that is not about a fact never changes that fact",
  "Inserting, anywhere in a recording, a frame that carries no server message of interest (an empty frame, a frame of other message types such as movement, damage, stats or sounds, a sequence-number frame, or an internal data block addressed to no player, whatever its bytes look like) leaves prints, roster, pings, flag tallies, frag scores, players, teams, dates, server details, stats report and verdicts unchanged, and adds exactly its own time to durations. For the killer of an unnamed team kill this is promised for insertions outside the frames that the attribution looks at.",
  ["histories", "inputs"],
  "every base history, every insertion position (also pairs of insertions), every noise frame of the alphabet",
  "Real recordings have noise only where it happened to fall; the tests never move it, and none has a data block whose bytes look like a server message.",
  ["src/qw/frame.rs", "src/prints.rs", "src/frags.rs", "src/flags.rs", "src/ping.rs", "src/duration.rs"],
  [("frame walk that skips by size, message loops keyed by message type", "src/prints.rs, src/ping.rs, src/frags.rs, src/flags.rs"), ("hidden data blocks recognised by their empty player mask", "src/qw/frame.rs")])

p("C05", "Demo and countdown durations are the exact frame-time sum",
  "The demo duration is, to the millisecond and for recordings of any length, the sum of the times of all frames up to and including the frame with the last 'The match is over' print; without one, up to and including the frame with the last status change to Standby; without either, of all frames. The countdown duration is the same sum up to and including the frame with the first matchdate print, an error if there is none, and zero in hoonymode.",
  ["histories", "inputs"],
  "all sequences of frame times and landmarks up to the bounds, plus long accumulations",
  "Tests compare eight recordings, all shorter than half an hour, where single-precision rounding and overflow do not show and each landmark occurs at most once.",
  ["src/duration.rs", "src/qw/frame.rs", "src/matchdate.rs"],
  [("sum over the frame walk up to a landmark offset", "src/duration.rs duration_until_offset")])

p("C06", "Match duration takes the right source and is never negative",
  "Outside hoonymode the match duration is the duration stated in the recording's stats report when there is a readable, representable one; in every other case it is the demo duration minus the countdown duration (zero countdown if there is none). In hoonymode the stats report is ignored and the match duration is the demo duration. A match end recorded before the countdown ends gives zero, not an error, a wrapped value or a crash.",
  ["histories", "configurations"],
  "every combination of mode, report presence and content, and landmark order",
  "The tests have one recording per ordinary case; combinations such as hoonymode with a report, a damaged report, a negative duration or an end landmark before the countdown landmark do not occur in them.",
  ["src/duration.rs", "src/ktxstats.rs", "src/bytesextra.rs", "src/serverinfo.rs"],
  [("precedence by mode and by or_else", "src/duration.rs match_duration")])

p("C07", "Frag scores follow the obituaries exactly",
  "A player's frag score is the tally of the medium-level obituary prints that open the frames: +1 to the killer for every kill, -1 for a death to the world, -2 for 'suicides', -1 for a self-kill with a weapon, -1 for a named team kill, and nothing for any other text or level. Every known obituary wording counts for the right player, whatever bytes the names are made of (as long as a name does not itself read like part of an obituary), whatever order the obituaries come in and however many share a frame; players without obituaries do not appear.",
  ["histories", "inputs"],
  "every obituary wording, and all event sequences up to the bounds, over a name alphabet with coloured, control and space-like characters",
  "Tests check each wording once in isolation with the name FOO and the totals of a few recordings; they cannot reach sequences, repeated obituaries, wordings that contain one another, or unusual names.",
  ["src/frags.rs", "src/qw/fragevent.rs", "src/qw/fragprint.rs", "src/qw/message/print.rs"],
  [("wording tables and precedence", "src/qw/fragevent.rs FragEvent::try_from, src/qw/fragprint.rs"), ("score loop", "src/frags.rs frags_per_player_name")])

p("C08", "An unnamed team kill is charged to the teammate who did it",
  "When an obituary names only the victim of a team kill, one frag is taken from the first player, in recording order, who is on the victim's team, is not the victim, and whose frag count update directly follows the print in its frame or opens one of the next two frames with content. Players are identified by their real slot numbers, so empty slots do not shift the blame. If there is no such player, nobody's score changes.",
  ["histories", "configurations"],
  "all rosters over a few slots and teams, and all placements of frag updates in the window around the print",
  "Only one recording with such a team kill exists in the tests (and it is not in the repository), with a gapless roster and one update.",
  ["src/frags.rs", "src/clients.rs", "src/qw/message/update_frags.rs"],
  [("look-ahead for frag updates", "src/frags.rs find_team_killer"), ("slot number of a client", "src/clients.rs clients")])

p("C09", "Flag tallies count every flag event for the right player",
  "Per player, the tallies of pickups, captures, returns, carrier frags (assists), defends, carrier defends and carrier defends against an aggressive enemy equal the number of the corresponding high-level flag messages in the recording, for both flags, whether a message is one print or a name print followed by the rest, and however many there are, as long as a name does not itself read like a flag message. Messages at other levels, other texts and other players' messages never change a tally.",
  ["histories", "inputs"],
  "all sequences of flag messages, whole or in two parts, up to the bounds, and accumulations beyond 255",
  "The one test needs a recording that is not in the repository; even that is a single history with less than 30 events per player.",
  ["src/flags.rs", "src/qw/flagevent.rs", "src/qw/flagprint.rs"],
  [("pairing of name and suffix prints", "src/flags.rs flag_events_per_player_name"), ("wording precedence", "src/qw/flagevent.rs")])

p("C10", "Pings are the average of the first eight samples",
  "The ping of a player number is the average, rounded down, of all its values in the first eight frames that open with ping updates (each ping update paired with its packet-loss update), whatever the values and the number of players. Later samples and ping updates that do not open a frame do not count; a player without a sample has no entry, and a recording without samples gives an error.",
  ["histories", "inputs"],
  "all sequences of sample frames over small slot and value alphabets including the extremes, with interleaved other frames",
  "The test is one recording with low pings and all players in all samples; limits, extremes and partial samples never occur.",
  ["src/ping.rs", "src/qw/message/update_ping.rs"],
  [("sampling loop with a sample limit", "src/ping.rs ping_per_player_number")])

p("C11", "The client roster is the recorded roster, slot for slot",
  "The clients are exactly those named in the recording's initial player information, in slot order, each with its real slot number, name, team, colours, spectator and bot marks, login and country, whichever slots are used and whatever order the attributes come in. Player clients are the non-spectators and spectator clients the spectators, in the same order; absent attributes give the documented defaults (empty team, colours 0, not a spectator, not a bot, no login, no country).",
  ["inputs", "configurations"],
  "all occupancies of up to 8 slots and selected occupancies of all 32, all attribute subsets and orders of the alphabet",
  "The tests check three recordings whose occupied slots start at 0 without a gap.",
  ["src/clients.rs", "src/client.rs", "src/clientinfo.rs"],
  [("scan for info strings after the spawn command", "src/clientinfo.rs clientinfo_strings"), ("attribute mapping", "src/client.rs From<&Clientinfo>"), ("slot number of a client", "src/clients.rs clients")])

p("C12", "Name lists partition the roster, sorted and free of duplicates",
  "Player names and spectator names together contain every client's name exactly as often as the roster does, each list sorted by its readable (colour-stripped) form without regard to case. Team names contain each distinct team of a player exactly once and no other, sorted the same way. A roster has human players if some player is not a bot, and bot players if some player is one (or the stats report lists a bot).",
  ["inputs", "configurations"],
  "all rosters over a small alphabet of names and teams, with names that differ only in case or colour",
  "The tests have no teams or names that differ only in case or colour, and no mixed bot rosters.",
  ["src/clients.rs"],
  [("sort by readable form, then dedup", "src/clients.rs player_names, spectator_names, team_names")])

p("C13", "Without a stats report, players are merged correctly from the recording",
  "Without a readable stats report, there is exactly one player per non-spectator client, with that client's name, team, colours, bot mark, login and country, the frag score counted for that name (0 if none) and the average ping sampled for that client's slot (0 if none). Players are ordered by frags, highest first, and by name among equals.",
  ["histories", "configurations"],
  "all rosters, frag histories and ping samples over small alphabets",
  "The tests compare whole recordings in which no slot gap, tie, missing ping or missing score is combined.",
  ["src/players.rs", "src/player.rs", "src/frags.rs", "src/ping.rs", "src/clients.rs"],
  [("merge by slot number and by name", "src/players.rs players_from_parsing"), ("ordering", "src/player.rs sort")])

p("C14", "With a stats report, it decides players and server details",
  "When the recording has a readable stats report, the players are exactly its players with its names, teams, colours, frags and pings (a negative ping counts as 0), ordered by frags then name, whatever the rest of the recording says; a player is a bot if the report carries a bot configuration for it or a ping of 10, and has a login only if the report gives a non-empty one. The server details are the report's host name, ip and port, and 'ip:port' as address; without a readable report, server details are an error.",
  ["inputs", "configurations"],
  "all reports over a small alphabet of player records and server fields, combined with contradicting recordings",
  "The tests convert three complete reports of real games; absent fields, ties, bots marked only by ping, or reports contradicting the recording do not occur.",
  ["src/players.rs", "src/player.rs", "src/server.rs", "src/ktxstats.rs"],
  [("report preferred over parsing", "src/players.rs players"), ("field mapping", "src/player.rs From<&ktxstats::v3::Player>, src/server.rs From<&KtxstatsV3>")])

p("C15", "Teams aggregate exactly the players",
  "Every player belongs to exactly one team, that of its team name (compared exactly), keeping the players' order; a team's frags are the sum and its ping the rounded average of its players'. A team's colour is its most common player colour from three players on (the first player's among equally common ones, in player order) and its first player's colour below that. Teams are ordered by name without regard to case.",
  ["inputs", "configurations"],
  "all player lists up to the bound over small alphabets of team, colour, frags and ping, including extremes and ties",
  "The tests have one list of four players and two recordings; ties, case variants, large sums and team sizes from 1 to many are not covered.",
  ["src/team.rs", "src/teams.rs"],
  [("grouping and sums", "src/team.rs teams_from_players, From<&[Player]>"), ("majority colour", "src/team.rs majority_color")])

p("C16", "The stats report is reassembled exactly from its blocks",
  "The stats report text is exactly the document the recorder stored, however it was split into blocks, wherever in the recording the blocks are and whatever follows them; if there are several documents it is the last one. A report that breaks off (a block is cut short, or its last block is not there) is an error, not a part of the text.",
  ["inputs", "histories"],
  "all splits of documents into up to four blocks, all positions, all cuts",
  "The tests compare two real reports, each with one particular split.",
  ["src/ktxstats.rs", "src/qw/block.rs"],
  [("block walk until block number 0", "src/ktxstats.rs ktxstats_string"), ("block header", "src/qw/block.rs Info::try_from")])

p("C17", "Server settings and file name are read as recorded",
  "The serverinfo text is the recorded one in readable form (colours stripped, coloured digits and brackets mapped to plain ones), and every setting has the value recorded for its key, in whatever order the keys come and wherever in the opening of the recording the text is; a key that was not recorded, or is not a number where one is needed, is absent. The file name is the recorded demo name, and both are errors when the recording has none.",
  ["inputs", "configurations"],
  "all key subsets and orders over a small alphabet, all character values, all offsets of the text in the opening window",
  "The tests read three recordings, none with coloured characters or unusual order.",
  ["src/serverinfo.rs", "src/filename.rs", "src/bytesextra.rs"],
  [("search window and delimiters", "src/serverinfo.rs serverinfo_string, src/bytesextra.rs offsets_between")])

p("C18", "The timestamp is the instant the match was recorded",
  "If the server settings carry an epoch, the timestamp is that instant. Otherwise it is the instant of the first matchdate print: its local time corrected by its timezone, given as a known abbreviation (an ambiguous one in either of its listed meanings), or as a numeric offset between -12:00 and +12:00 written +hh or +hhmm. A missing, malformed or impossible date, or an unknown timezone, is an error.",
  ["inputs"],
  "all abbreviations of the table and their neighbours, all numeric offsets in every form, all date components at their limits, epoch present, absent or malformed",
  "Tests sample five abbreviations and four offsets; the table has about two hundred entries and the offset grammar thousands of strings.",
  ["src/timestamp.rs", "src/matchdate.rs", "src/timezone.rs"],
  [("epoch first, matchdate second", "src/timestamp.rs timestamp"), ("timezone table and offset grammar", "src/timezone.rs utc_offset")])

p("C19", "Valid, aborted and paused verdicts mean what they say",
  "A recording is valid exactly if it has at least 1024 bytes, ends with the EndOfDemo message, has server settings and has at least one client. It is aborted exactly if the 'Match stopped by majority vote' announcement is in it, and paused exactly if it does not end with the EndOfDemo message and has a 'Server is paused' or 'paused the game' text in it, wherever that is.",
  ["inputs", "configurations", "crash_points"],
  "all combinations of the ingredients, positions of the texts, and near-miss variants of each ingredient",
  "Each test recording is one combination; most combinations and all near misses are untested.",
  ["src/validate.rs", "src/aborted.rs", "src/paused.rs"],
  [("conjunction of ingredients", "src/validate.rs is_valid"), ("needle searches", "src/aborted.rs, src/paused.rs")])

p("C20", "The same recording always gives the same answer",
  "For a given byte string, every function's result (with order wherever the result is a list) is the same on every call, in every process and thread, whatever the process's hash seed, address-space layout, clock, environment variables or working directory.",
  ["configurations", "inputs"],
  "all iteration orders of the hash maps involved (driven through the seed), over inputs with every kind of tie; clock and environment answers",
  "A test sees one hash seed per run and asserts only tie-free results, so order that comes from the seed passes by luck.",
  ["src/team.rs", "src/teams.rs", "src/players.rs", "src/ping.rs", "src/clients.rs", "src/frags.rs"],
  [("sorting of everything collected from a hash map", "src/players.rs, src/team.rs")])

p("C21", "Earlier calls never influence later ones",
  "A function's result depends only on the bytes it is given: it is the same whatever functions were called before, on whatever recordings, in whatever order, including when another recording occupied the same buffer or had the same length, and the input is never modified.",
  ["histories"],
  "all call sequences up to a depth over all functions and a set of recordings that share length, prefix and address",
  "Every test makes its calls on a fresh buffer and never compares with a run without history.",
  ["src/lib.rs", "src/clientinfo.rs", "src/serverinfo.rs", "src/frags.rs", "src/ktxstats.rs"],
  [("no state outside the call", "all modules")])

p("C22", "Concurrent calls do not interfere",
  "Calls made from several threads at the same time, on the same or different recordings, each return what they would return alone.",
  ["schedules"],
  "every preemption point (instruction boundary) of one call, with a complete other call run at it; all pairs of functions over a set of recordings",
  "The test runner uses threads, but no test makes overlapping calls to compare, nor controls the interleaving.",
  ["src/lib.rs", "src/frags.rs", "src/ping.rs", "src/ktxstats.rs", "src/serverinfo.rs"],
  [("no shared mutable state", "all modules")])

p("C23", "Memory use is bounded by the size of the input",
  "The memory any call holds at its peak is bounded by a constant plus a constant multiple of the input's length, for every input: a length, count or number stated inside the input never makes a call allocate more than the input itself could hold.",
  ["inputs", "fault_sequences"],
  "every length and count field of the explored recordings set to every value of an alphabet with extremes, and the damaged inputs of C01",
  "No test measures memory or feeds a false length.",
  ["src/qw/frame.rs", "src/qw/block.rs", "src/ktxstats.rs", "src/clientinfo.rs", "src/prints.rs", "src/frags.rs"],
  [("sizes checked against the buffer before use", "src/qw/frame.rs, src/ktxstats.rs")])

p("C24", "The different views of one recording agree",
  "For every input, intact or damaged, the overlapping answers are consistent: names and team lists match the clients, clients match the info strings, players and spectators partition the clients, teams are the aggregation of the players, the combined duration, timestamp, players, server and file-name answers are those of the specific functions they combine, and the validity verdict matches its ingredients.",
  ["inputs", "fault_sequences", "histories"],
  "all inputs of the damaged-input exploration and of the synthesised histories",
  "Each function is tested on its own against constants; no test relates two functions' answers.",
  ["src/lib.rs", "src/clients.rs", "src/players.rs", "src/teams.rs", "src/timestamp.rs", "src/duration.rs", "src/validate.rs", "src/filename.rs", "src/server.rs"],
  [("composition of the specific functions", "src/players.rs, src/teams.rs, src/timestamp.rs, src/duration.rs, src/validate.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
