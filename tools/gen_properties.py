#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

GAME, GOBAN, GROUP = "src/rules/game.rs", "src/pieces/goban.rs", "src/pieces/group.rs"
TERR, UTIL, BUILD = "src/pieces/territory.rs", "src/pieces/util.rs", "src/rules/game_builder.rs"
SGF, DEAD, RULES, ZOB, STONES = "src/rules/sgf_bridge.rs", "src/rules/dead_stones.rs", "src/rules/mod.rs", "src/pieces/zobrist.rs", "src/pieces/stones.rs"
HIST = ["histories", "inputs", "configurations"]

p("C01", "Every move changes the board exactly as the rules of Go say",
  "After any accepted move the board is exactly the previous board plus the new stone, minus every opposing group the move left without liberties, and, where the rules in force allow suicide and nothing was captured, minus the mover's own group if it has no liberty. No other point of the board changes, on any board size including non-square ones.",
  HIST, "every board size 1..19 x 1..19, every rule set, every starting position whose groups all have a liberty, every sequence of accepted moves and passes",
  "the tests replay three recorded 19x19 games and a few hand-made captures; merging, multi-group capture and edge cases depend on the whole history of group bookkeeping",
  [GAME, GOBAN, GROUP, UTIL],
  [("play", GAME+": Game::play"), ("placing a stone and merging groups", GOBAN+": Goban::push_wth_feedback, merge_strings"), ("removal of dead groups", GOBAN+": remove_captured_stones_aux, remove_chain")],
  [("groups", "per-group stone list and liberty bit set", GOBAN+": Goban.chains, next_stone")],
  ["Game::goban / get_color after each play"])
p("C02", "Occupied and suicide refusals are exact",
  "A point is refused as occupied exactly when a stone is on it. A move on an empty point is refused as suicide exactly when the rules in force forbid suicide and, after removing the opposing groups it captures, the mover's own group would have no liberty; no other empty point is refused unless ko, superko or eye-filling is the reason.",
  HIST, "every reachable position, every point, both colours, every combination of forbidden behaviours",
  "tests look at two hand-made suicide points; the verdict depends on the liberties of up to four neighbouring groups in every reachable position",
  [GAME, GOBAN], [("suicide test", GAME+": Game::check_suicide"), ("verdict order", GAME+": Game::check_point_by")],
  observe=["Game::check_point_by, check_suicide, try_play"])
p("C03", "Simple ko forbids the immediate single-stone recapture and nothing else",
  "Under a simple ko rule a move is refused as ko exactly when it would recapture, at once, the single stone just played that itself had just captured a single stone, recreating the board as it stood before the opponent's play. Snapbacks, captures of several stones, and retakes after any intervening move or pass are allowed.",
  HIST, "every game history with captures, recaptures, passes, forced plays, setup positions and both colours",
  "tests contain three ko shapes on 19x19; the ko state is carried across moves and passes and depends on how many stones each capture took",
  [GAME, GOBAN], [("ko point", GAME+": Game::check_ko"), ("ko point update", GOBAN+": remove_captured_stones_aux")],
  [("ko point", "point of the single stone captured by the last play", GAME+": Game.ko_point")],
  ["Game::check_ko, check_point, try_play"])
p("C04", "Positional superko: no position ever repeats, and nothing else is refused",
  "Under a superko rule a move is refused exactly when the whole-board position it would produce already occurred in this game, the starting position included. Hence no sequence of accepted moves ever recreates an earlier position, whatever the length of the cycle and whether or not the last move of the cycle captures.",
  HIST, "every game history: long cycles, double and triple ko, sending two returning one, suicide cycles, cycles closed by a quiet move, games started from setup positions",
  "one test checks one position of one game; cycles span the whole history",
  [GAME, GOBAN, ZOB], [("superko test", GAME+": Game::check_super_ko, play_for_verification"), ("record of positions", GAME+": Game.history"), ("position key", ZOB+": index_zobrist")],
  [("history", "set of the boards that preceded each play", GAME+": Game.history")],
  ["Game::check_point, legals, try_play"])
p("C05", "Legal-move list, point verdict and move attempt always agree",
  "In every position the list of legal moves holds each playable point exactly once, a point is listed exactly when its verdict is 'no objection', and attempting a move on an unpaused game succeeds exactly on listed points and fails with the same objection as the verdict. For any overriding set of forbidden behaviours the listed points are exactly the empty points that none of the single behaviours forbids, and the empty-point listings are exactly the empty points.",
  HIST, "every reachable position x every subset of forbidden behaviours x every point",
  "tests ask for legality of single points under the default rules only",
  [GAME, GOBAN], [("listing", GAME+": Game::legals, legals_by, pseudo_legals, pseudo_legals_vec"), ("verdict", GAME+": check_point_by"), ("attempt", GAME+": try_play")],
  observe=["Game::legals, legals_by, check_point, check_point_by, try_play, pseudo_legals, pseudo_legals_vec"])
p("C06", "Refused moves and queries leave the game untouched; clones are independent",
  "A refused move attempt and every query leave the board, turn, prisoners, pass state, ko state, position record and outcome exactly as they were, so the rest of the game is unaffected. Playing on a copy of a game never affects the original, and both continue identically when given the same moves.",
  HIST, "every history with refused attempts, queries and clones interleaved at any step",
  "no test compares a game before and after a refused move or plays two copies on",
  [GAME, GOBAN], [("attempt guarded before mutation", GAME+": Game::try_play"), ("simulation on a copy", GAME+": play_for_verification")],
  observe=["all observers of Game before/after"])
p("C07", "Turns, passes, pausing, resuming and resignation follow the game protocol",
  "Stones and passes alternate the turn, a stone play breaks the run of passes, and the game is over exactly when two passes in a row were made or an outcome is recorded; while paused by two passes every attempt is refused as paused until the game is resumed, which continues with the same player to move. A resignation ends the game with the resigning player's opponent as winner and changes neither board nor turn.",
  ["histories"], "every interleaving of plays, passes, resumes, refused attempts and resignations, for every rule set and starting turn",
  "tests do two passes once and one pass between plays",
  [GAME, RULES], [("play/try_play/resume", GAME+": Game::play, try_play, resume, is_over, outcome")],
  [("passes", "number of passes in a row", GAME+": Game.passes"), ("outcome", "recorded result", GAME+": Game.outcome")],
  ["Game::turn, is_over, outcome, try_play"])
p("C08", "Stones are conserved: prisoners account for every stone removed",
  "For each colour, the stones of that colour on the board plus those held as prisoners by the opponent always equal the stones of that colour set up plus those played. Prisoner counts change only by a move that removes stones, by exactly the number removed, credited to the opponent of their owner.",
  HIST, "every history of plays and passes, including suicides of several stones and captures of several groups at once",
  "tests compare the final prisoner count of three recorded games",
  [GAME, GOBAN], [("prisoner accounting", GAME+": Game::remove_captured_stones"), ("count of removed stones", GOBAN+": remove_captured_stones_aux")],
  [("prisoners", "stones captured by black and by white", GAME+": Game.prisoners")],
  ["Game::prisoners, Goban::number_of_stones"])
p("C09", "Groups are the connected components, with exact stones and liberties",
  "At every moment the groups of the board partition its stones into the maximal connected one-colour sets; each group lists each of its stones once, counts them correctly, knows exactly its set of adjacent empty points, and is reported dead or in atari exactly when it has none or one. Enumerating a group's stones announces at every step exactly how many remain, and the groups next to a point are reported once each.",
  HIST, "every history of game moves, and every sequence of raw stone placements and group removals",
  "the unit tests check one hand-made list and no liberty set; the sets are maintained incrementally so errors surface only after merges and removals in some order",
  [GOBAN, GROUP], [("incremental merge", GOBAN+": push_wth_feedback, merge_strings, add_stone_to_chain"), ("incremental removal", GOBAN+": remove_chain"), ("liberty bit set", GROUP+": set, merge, iter_ones")],
  [("liberties", "bit set of adjacent empty points", GROUP+": Group.liberties"), ("next_stone", "circular list of stones", GOBAN+": Goban.next_stone")],
  ["Goban::chains, chain_stones, get_connected_groups_idx, Group::liberties"])
p("C10", "A board can be edited indefinitely",
  "However many stones have been placed and groups removed over the life of a board, it keeps accepting placements and removals and stays correct: its position, groups and liberties are always those of a board freshly set up with the same stones.",
  ["histories"], "placement/removal histories of unbounded length (exercised beyond 65,536 group creations)",
  "the longest test has 300 moves; group identifiers are 16 bits wide",
  [GOBAN, GROUP], [("group slots", GROUP+": Groups::put_free_spot, remove"), ("16-bit group ids", GOBAN+": create_chain, update_chain_indexes_in_board")],
  [("slots", "group slot vector", GROUP+": Groups")], ["Goban::push, remove_chain, chains, get_connected_groups_idx"])
p("C11", "Equality, hash and fingerprint depend on the position alone",
  "Two boards of the same size are equal exactly when every point holds the same stone, and then their hashes and 64-bit fingerprints are equal too, whatever sequences of placements, captures and removals produced them. An empty board always has the same fingerprint, two positions that differ at one or two points never share a fingerprint, and different positions are unequal even if their fingerprints coincide; boards of different sizes are never equal.",
  ["histories", "inputs"], "every pair of histories leading to the same or to different positions, including returns to an earlier position by capture",
  "tests compare one pair of boards; the fingerprint is maintained incrementally",
  [GOBAN, ZOB], [("incremental fingerprint", GOBAN+": push_wth_feedback, remove_chain"), ("key table", ZOB+": index_zobrist"), ("eq/hash", GOBAN+": impl PartialEq, Hash for Goban")],
  [("zobrist_hash", "xor of the keys of all stones", GOBAN+": Goban.zobrist_hash")],
  ["Goban::eq, Hash, zobrist_hash"])
p("C12", "All read-outs of a board describe the same position",
  "For every board size and position, the row-major array, the matrix, the per-point colour, the stone lists, the per-colour listings (empty included), the empty-point listings, the neighbour and liberty listings, the stone counts and the printed diagram all describe the same height x width position, each point exactly once. The same holds for boards reached by play, by setup and by SGF import.",
  ["inputs", "histories", "configurations"], "every board size 1..19 x 1..19, every position, every accessor",
  "tests print 19x19 boards and list the stones of one; no other size or accessor is compared",
  [GOBAN, UTIL, GAME], [("accessors", GOBAN+": to_vec, matrix, get_stones, get_coords_by_color, get_stones_by_color, get_empty_idx, get_empty_coords, get_liberties, number_of_stones, pretty_string")],
  observe=["the accessors themselves"])
p("C13", "Exporting a square board and rebuilding it gives an equal board",
  "For every square board whose groups all have a liberty, building a new board from its exported array of points gives a board of the same size, equal to it, with the same hash, groups and liberties. Placing the stones of a position one by one, in any order, likewise always gives an equal board.",
  ["inputs", "histories"], "every square size 1..19, every position without dead groups, every placement order",
  "one test rebuilds one 19x19 board with two stones",
  [GOBAN], [("export", GOBAN+": Goban::to_vec"), ("rebuild", GOBAN+": impl From<&[MaybeColor]> for Goban")],
  observe=["Goban::to_vec, Goban::from, =="])
p("C14", "Territory is the empty regions bordered by a single colour",
  "On every position each maximal connected region of empty points counts as territory of a colour exactly when it borders stones of that colour and none of the other; territory listings hold each such point once, and counts equal the listings. Region queries from a point return exactly the maximal connected same-content region containing it, and partitioning any set of points yields exactly the regions meeting it.",
  ["inputs"], "every position on every board size, every starting point, both colours and empty",
  "tests compute territory on three 19x19 positions",
  [TERR, GOBAN], [("flood fill", TERR+": get_group_from_point, get_chains_from_stones"), ("ownership", TERR+": get_territories, calculate_territories")],
  observe=["Goban::get_territories, calculate_territories, get_group_from_point, get_chains_from_stones"])
p("C15", "Score and result follow from territory, stones, prisoners and komi",
  "The score of each side is its territory, plus its stones on the board if stones count, plus the prisoners it holds if prisoners count, and white alone gets the komi if komi counts, for every combination of those options. A game ended by two passes is won by the side with the higher score under the game's own options, by exactly the difference, and is a draw exactly when the scores are equal. The shipped Japanese rules count prisoners and a komi of 6.5, the shipped Chinese rules stones and a komi of 7.5; both forbid ko and suicide, the Chinese superko too.",
  HIST, "every position, prisoner count, komi value and combination of scoring options, both shipped rule sets",
  "tests compute four scores and one outcome",
  [GAME, RULES, TERR], [("score", GAME+": Game::calculate_score_by, calculate_score"), ("result", GAME+": Game::outcome"), ("shipped rules", RULES+": JAPANESE, CHINESE")],
  observe=["Game::calculate_score, calculate_score_by, outcome, komi"])
p("C16", "Look-ahead agrees with what playing actually does",
  "For every playable point the simulated board equals the board after actually playing there and leaves the game untouched, the capture forecast is true exactly when the move removes an opposing stone, and the suicide forecast for either colour is true exactly when that colour's move there would leave its own group without liberties and capture nothing.",
  HIST, "every reachable position, every empty point, rule sets with and without suicide",
  "tests query a look-ahead function on two positions and never compare with actually playing",
  [GAME, GOBAN], [("simulation", GAME+": Game::play_for_verification"), ("forecasts", GAME+": will_capture, check_suicide")],
  observe=["Game::play_for_verification, will_capture, check_suicide vs Game::play"])
p("C17", "Rules are symmetric under board symmetries and colour exchange",
  "Transforming a whole game by any rotation or reflection of the board, or by exchanging the colours, transforms every observation the same way: boards, legal moves with their objections, captures, prisoners, groups with liberties, eyes, territory and (komi aside) scores. No verdict depends on orientation, colour or where on the board a shape stands.",
  HIST, "every history x the eight symmetries x colour exchange, square and non-square boards",
  "each test has one fixed orientation and colouring",
  [GAME, GOBAN, TERR, UTIL], [("neighbour and corner enumeration", UTIL+": neighbor_coords, corner_points"), ("order-sensitive loops", GAME+": check_eye; "+GOBAN+": push_wth_feedback")],
  observe=["all observers on the game and its image"])
p("C18", "Eye verdicts are sound and legal-move eye filtering follows them",
  "A point is reported as an eye of a colour only if it is empty and every on-board orthogonal neighbour holds that colour; it is always reported when moreover every on-board diagonal neighbour holds that colour, and never when two or more diagonals (one in a corner of the board) hold the opponent. Forbidding eye filling removes from the legal moves exactly the mover's eyes, reported as such, and nothing else.",
  HIST, "every position, every point, both colours, every board size",
  "one test asks about five points of one game",
  [GAME, UTIL], [("eye test", GAME+": Game::check_eye, helper_check_eye"), ("filter", GAME+": check_point_by with FILLEYE")],
  observe=["Game::check_eye, legals_by, check_point_by"])
p("C19", "SGF import reproduces the recorded game",
  "Importing an SGF main line gives the same game as setting up its size, rules, komi, handicap, setup stones and player to move and then playing its moves in order with their recorded colours, whatever the order of properties within nodes, extra annotations, white space, or side variations; columns come before rows in points and in sizes. A recorded result becomes the game's outcome with the recorded winner and margin.",
  ["inputs", "histories"], "every SGF main line of playable moves and passes on boards up to 19x19, every formatting of it",
  "four fixed SGF texts with the same layout, all square boards",
  [SGF, BUILD], [("token walk", SGF+": Game::from_sgf"), ("conversions", SGF+": From<Action> for Move, From<Outcome> for EndGame, From<RuleSet> for Rule")],
  observe=["Game::from_sgf compared with Game::builder + play"])
p("C20", "SGF import never crashes: any text gives a game or an error",
  "For any input text the import returns either a well-formed game or an error value; it never panics, whatever sizes, coordinates, rules, game types, colours, repeated points, repeated passes or truncated text the file contains. An accepted import has the board size the file asks for, between 1 and 19.",
  ["inputs"], "arbitrary text, mutated valid SGF, and grammatical SGF with out-of-range or contradictory values",
  "only four valid files are ever parsed",
  [SGF, BUILD], [("error path", SGF+": Game::from_sgf returns Result<_, String>")],
  observe=["Game::from_sgf under catch_unwind"])
p("C21", "The builder yields exactly the game that was asked for",
  "A built game has the requested size, rules, komi, turn, setup and handicap stones, moves and outcome, in whatever order the options were given, and equals a game constructed directly and played with the same moves. Handicap gives white the first turn unless a turn is given, komi overrides that of the rules, unset options take the documented defaults, and the builder is reset after use.",
  ["inputs", "configurations"], "every combination and order of builder options, every move list accepted by play",
  "the builder is only used through one doc example and SGF files",
  [BUILD, GAME], [("builder", BUILD+": GameBuilder::build_inner, Default"), ("handicap on a game", GAME+": Game::put_handicap")],
  observe=["GameBuilder::build vs Game::new + put_handicap/set_komi/play"])
p("C22", "The recorded history is the sequence of positions of the game",
  "The history of a game lists the board as it stood before each stone play, each distinct position once in order of first occurrence, with passes, refused attempts and queries adding nothing. In a game where no position repeats there is one entry per stone play, the first being the starting position.",
  ["histories"], "every history with plays, passes, refused attempts and repeated positions",
  "no test reads the history",
  [GAME], [("record", GAME+": Game::play inserts into Game.history, Game::history")],
  observe=["Game::history (feature history)"])
p("C23", "Out-of-range coordinates and sizes are refused, never remapped",
  "Creating a board larger than 19 in either dimension is refused, and every accepted size request yields a board of exactly that size. A play or placement outside the board is refused by a panic or an error and leaves the board unchanged; it never lands on another point.",
  ["inputs", "configurations"], "every size request, every board size, every off-board coordinate, in optimised and in debug builds",
  "tests never leave the board; debug assertions differ from release behaviour",
  [GOBAN, GAME, RULES], [("size assertion", GOBAN+": Goban::new"), ("bounds assertion", GAME+": Game::play; "+GOBAN+": Goban::push"), ("size conversion", RULES+": From<GobanSizes> for Size")],
  observe=["Game::new, Goban::new, Game::play, try_play, Goban::push under catch_unwind"])
p("C24", "Groups lacking two eyes are identified exactly",
  "With dead-stone support on, the groups reported as floating are exactly the live groups on the board adjacent to fewer than two points that are eyes of their colour, each reported once by an identifier whose stones can be read back from the board. The answer depends on the position alone, not on how it was reached.",
  HIST, "every reachable position after any history of captures and merges",
  "one ignored-by-default test calls it indirectly without checking the answer",
  [DEAD, GAME], [("eye counting per group", DEAD+": Game::get_floating_stones")],
  observe=["Game::get_floating_stones, chain_stones"])
p("C25", "Dead-stone estimation completes and reports only plausible groups",
  "With dead-stone support on, estimating dead stones by simulated play on any game whose rules forbid suicide and repetition, including games whose simulations end in a draw, completes without crashing and leaves the game unchanged. Every group it reports is a live group on the board that lacks two eyes, and a game that is already over yields no crash either.",
  HIST, "every game on small boards (2x2 to 5x5) with any komi, any rule set that forbids suicide and repetition (otherwise a playout may never end), any number of simulations from one",
  "one test runs it on a finished game, where no simulation happens",
  [DEAD], [("search and playout", DEAD+": Playout::playout, Evaluator::evaluate_leaf, dead_stones_wth_simulations")],
  observe=["Game::dead_stones_wth_simulations"])
p("C27", "Tree search sees exactly the game: moves, turn, end and winner",
  "With dead-stone support on, the moves a running game offers to a tree search are exactly its legal moves that fill no eye of the player to move, each once, or a pass alone when there is none. Making such a move in the search has exactly the effect of playing it, the search sees the same player to move, sees the game as final exactly when it is over, and sees the same winner; listing the moves changes nothing.",
  HIST, "every game, board size and rule set; paused or finished games offer no promise about their moves",
  "no test looks at the search's view of a game",
  [DEAD], [("the search's view", DEAD+": impl GameTrait for Game")],
  observe=["oxymcts::GameTrait for Game"])
p("C26", "Points and linear indexes correspond one to one on every board size",
  "For every board size the row-major index of a point and the point of an index are inverse to each other, cover 0..height*width exactly, and passing a point or its index to the same query gives the same answer. The neighbours of a point are exactly the on-board points at distance one, and its corners those at diagonal distance one.",
  ["inputs", "configurations"], "every board size up to 19 x 19, every point on it",
  "tests only use square boards, where two coordinate mix-ups cancel out",
  [UTIL, GOBAN], [("mapping", UTIL+": two_to_1dim, one_to_2dim, one2dim!, valid_coords, is_coord_valid")],
  observe=["util::coord functions, Goban::get_color with both forms"])
p("C28", "Colours, points, sizes, rule names and results keep their meaning",
  "Negating a colour gives the other colour, and converting between optional colours, points, stones, coordinates and moves keeps coordinate and colour and refuses exactly the points without a colour. The named sizes are the square boards of 9, 13 and 19 lines both ways and every other number is refused, a custom size keeps height and width in order, the rule names JAP and CHI alone stand for the shipped rules, a result names the winner it records and a draw none, and the default game is an empty 19x19 board under Chinese rules with black to move.",
  ["inputs"], "all coordinates, colours, numbers, rule names, sizes and margins",
  "tests use a few of the conversions with symmetric values",
  [STONES, RULES, GAME], [("conversions", STONES+", "+RULES+": From, TryFrom, FromStr and Not implementations"), ("winner", RULES+": EndGame::get_winner")],
  observe=["the conversions themselves, Game::default"])
p("C29", "Games never influence one another",
  "What a game shows and accepts depends on its own setup and moves alone: playing other games in between, of the same or another size or rule set, or the very same position, in whatever order the moves of the games are mixed, and going on with a game in another thread, leaves every observation of it as in a game played alone in a fresh thread.",
  ["histories", "schedules", "configurations"], "two to four games of any size and rules, every order of their moves, hand-overs between threads",
  "the tests play one game at a time",
  [GAME, GOBAN, ZOB], [("state held by the game alone", GAME+": Game; "+GOBAN+": Goban"), ("shared tables are constant", ZOB)],
  observe=["every query of Game and Goban"])
p("C30", "Optional features and debug assertions never change the game",
  "Compiling the library without its optional features (position history, dead-stone support), with one of them or with both, and with or without debug assertions, leaves every game as it is: the same setup, moves and game records are accepted and refused alike and give the same boards, players to move, verdicts, prisoners, legal moves, scores and results. The features add queries and take nothing away.",
  ["configurations", "histories"], "every set of features, optimised and debug builds, every setup, move list and record",
  "the tests are compiled with one set of features and one profile",
  [GAME, RULES, GOBAN], [("feature and assertion switches", GAME+": Game::play, Game::history; "+RULES+": mod deadstones; "+GOBAN+", src/pieces/group.rs: cfg(debug_assertions)")],
  observe=["the same program compiled with each set of features"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P.sort(key=lambda x: x["id"])
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
