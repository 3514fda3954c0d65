# Writes /verif/properties.jsonl (kept as a script so that the text is reviewable and diffable).
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
I = ["inputs"]; H = ["inputs", "histories"]
p("C01", "Playing a checker step has its exact effect and is undone by its reverse",
  "Playing one checker step on an editable board moves exactly one checker of the player on turn from the source to the destination (bearing off removes it, undoing a bear-off brings it back), and, when the step hits, moves exactly one opposing checker from that point to the opponent's bar; nothing else on the board changes, whichever player is on turn. "
  "Each side therefore keeps its number of checkers except for those borne off, and playing the reverse step afterwards restores the position exactly. "
  "Playing a whole move is playing its steps one after another in order.",
  H, "every pair of checker distributions, both players on turn, every source/destination/hit combination a step can have, every sequence of steps",
  "The tests play a few dozen fixed steps, almost all for one player; the statement is about all positions and all step sequences.",
  ["bglib/model/boardeditor.py", "bglib/model/move.py"],
  [("make_partial_move", "bglib/model/boardeditor.py"), ("make", "bglib/model/boardeditor.py"), ("PartialMove.is_undo", "bglib/model/move.py")],
  ["BoardEditor.position and the other board attributes after make_partial_move / make"])
p("C02", "Boards are immutable values and editing never leaks between copies",
  "A board and an editor made from it (or from another editor) agree on every attribute, and freezing an editor gives back a board equal to it in every attribute; keyword values given on construction override the source, and an unknown keyword is refused for a board. "
  "A board can never be changed after construction, and changing one editor never changes the board or editor it came from, nor boards frozen from it earlier. "
  "Two boards compare equal exactly when all their attributes are equal, unequal exactly when some attribute differs, and comparing with something that is not a board is a type error.",
  H, "every value of the twelve board attributes, every chain of construct / edit / freeze",
  "Tests compare a handful of boards that differ in one attribute; equality and copying must hold for every attribute and value.",
  ["bglib/model/board.py", "bglib/model/boardeditor.py"],
  [("AbstractBoard.__eq__/__ne__", "bglib/model/board.py"), ("Board.__new__/__setattr__", "bglib/model/board.py"), ("BoardEditor.__init__/freeze", "bglib/model/boardeditor.py")],
  ["Board and BoardEditor attributes, ==, !=, raised errors"])
p("C03", "Flipping a board swaps the two players everywhere and is its own inverse",
  "Flipping an editable board exchanges the two players in every side-dependent attribute: checker distribution, score, cube owner (a centred cube stays centred), player on turn and player to act. "
  "No other attribute changes, and flipping twice gives back the original board.",
  I, "every board", "The tests flip a few concrete boards; the statement quantifies over every attribute value.",
  ["bglib/model/boardeditor.py"], [("flip", "bglib/model/boardeditor.py")], ["BoardEditor attributes after flip()"])
p("C04", "Landing, hitting and movability predicates are exact and side-symmetric",
  "For the player on turn, a point is open to land on exactly when the opponent has fewer than two checkers there (bearing off is always open), and landing hits exactly when the opponent has exactly one there (never when bearing off). "
  "A checker can be moved from a place exactly when the player has one there and no checker of his waits on the bar, or the place is the bar itself and it is occupied. "
  "The answers depend only on the position seen from the player on turn: mirroring the board and the turn never changes them, and asking never changes the board.",
  I, "every position, both players on turn, every point, the bar and off", "Tests probe a few points of a few positions, nearly always for one player.",
  ["bglib/model/board.py", "bglib/model/util.py"],
  [("is_open_to_land, is_hitting_to_land, has_chequer_to_move", "bglib/model/board.py"), ("flip_point", "bglib/model/util.py")], ["return values"])
p("C05", "Bearing off is allowed exactly as the rules of backgammon say",
  "Bearing a checker off from a point with a die is reported allowed exactly when the player has a checker there, all his checkers are in his home board, and either the die is the exact number or it is larger and no checker of his stands further from home. "
  "The checker chosen to bear off with a die is the one on the exact point if present, otherwise the farthest checker when all checkers are nearer than the die, and none when a checker stands outside home or beyond the die.",
  I, "every position, both players on turn, every home point that holds a checker of the player, every die", "A handful of bear-off positions are tested; the rule must hold for every distribution and die.",
  ["bglib/model/board.py"], [("is_ok_to_bearoff_from, find_src_of_bearoff_with", "bglib/model/board.py")], ["return values"])
p("C06", "Who may act: turn, cube and resignation legality and their effects",
  "Rolling is legal only for the player on turn who is also to act, in an ongoing game with no resignation pending and dice not yet rolled; moving likewise but with dice rolled; resigning only for the player on turn who is to act; answering a double only while one stands and for the player to act who did not double; answering a resignation only while one is pending and for the player to act; a take/drop decision can be turned into a redouble only in money play. "
  "Doubling hands the decision to the opponent; taking hands it back; dropping ends the game and pays the cube value to the doubler; an offered resignation goes to the opponent, accepting ends the game paying the accepting player the offered multiple of the cube value, rejecting hands the turn back; picking up the dice passes the turn. "
  "An action by a player for whom it is illegal is refused without changing the board, and no action changes anything beyond what is described.",
  H, "every board state, both players, every offer", "Tests step through two or three example games; legality is a relation over all board states.",
  ["bglib/model/board.py", "bglib/model/boardeditor.py"],
  [("is_leagal_to_*, is_cube_take_or_pass, is_to_accept_resign", "bglib/model/board.py"), ("double, take, drop, offer_resign, accept_resign, reject_resign, pickupdice", "bglib/model/boardeditor.py")],
  ["return values, raised errors, board attributes"])
p("C07", "Doubling is offered by the same rule to both players",
  "Before the roll of an ongoing game, the player on turn who is to act may double unless it is the Crawford game or a double is already standing: always in money play, and in a match only while the cube at its current value does not already suffice to win the match. "
  "The other player never may. The rule is the same for both players: mirroring the board never changes the answer.",
  I, "every board before the roll", "The tests check one side with a few scores; the two sides are coded separately.",
  ["bglib/model/board.py"], [("is_leagal_to_double", "bglib/model/board.py")], ["return value"])
p("C08", "The dice still to be played behave as a multiset",
  "After a roll the dice left to play are the two numbers once each, or the number four times for a double, or nothing when nothing was rolled. "
  "Using a die removes exactly one of that number and is refused when none is left, putting one back adds exactly one; the size is the number of dice left, a number is present exactly when it occurs, the largest is the largest number left (none if empty), and copies are independent.",
  H, "every roll, every sequence of uses and returns", "Tests try a couple of rolls and one or two uses.",
  ["bglib/model/move.py"], [("AvailableToPlay", "bglib/model/move.py")], ["AvailableToPlay's methods"])
p("C09", "A move under construction cancels a step with its exact reverse",
  "Adding a step to a move removes the latest earlier step that it exactly reverses (same die, swapped ends, same hit) and keeps all other steps in order; if there is none, the step is added at the end. "
  "Adding a move adds its steps in order, copying a move gives an independent move, and searching by destination yields exactly the steps ending there, latest first.",
  H, "every list of steps of any length and every added step", "Tests add two or three steps.",
  ["bglib/model/move.py"], [("Move.append/add/find", "bglib/model/move.py"), ("PartialMove.are_invertible_element", "bglib/model/move.py")], ["iteration over Move"])
p("C10", "Every suggested single step is a legal step, and a legal step is not missed",
  "A single step suggested for a source or for a destination uses a die that is left, moves a checker the player may move, goes the distance of the die or bears off as the rules allow, lands only on an open point, and is marked as hitting exactly when it hits. "
  "No step is suggested only when no die left gives a legal one, and the largest die that gives a legal step is the one used. "
  "Asking never changes the board, the dice left or the move built so far.",
  I, "every position, both players, every set of dice left, every source and destination on the board", "A few dozen positions are tested out of an astronomically large space.",
  ["bglib/model/move.py", "bglib/model/board.py"],
  [("guess_your_single_pm_from_source, guess_your_single_pm_from_dest", "bglib/model/move.py")], ["returned step, board, dice"])
p("C11", "Multi-step suggestions chain legal steps and leave the game as it was",
  "A multi-step move suggested from a source to a destination is a chain of steps that starts at the source, ends at the destination, each starting where the previous one ended, each legal when it is played and using dice that are left. "
  "Asking for it never changes the position, the dice left, or the move built so far, whether or not a move is found.",
  I, "every position, both players, every set of dice left, every source and destination", "A few dozen positions are tested.",
  ["bglib/model/move.py"], [("guess_your_multiple_pms", "bglib/model/move.py")], ["returned move, board, dice"])
p("C12", "Building a move keeps board, dice and move in step",
  "Adding a step to the move being built plays it on the board, uses its die and records it; adding the reverse step takes it off the record, gives the die back and restores the board. "
  "Asking whether the dice may be picked up never changes the position, the dice left or the move recorded, and the answer is yes whenever no die is left and no whenever some checker can still be moved by the rules with a die that is left.",
  H, "every position, roll and sequence of added steps", "Tests build a few moves on a few positions.",
  ["bglib/model/move.py", "bglib/model/boardeditor.py"], [("MoveFactory.append/add/is_leagal_to_pickup_dice", "bglib/model/move.py")], ["MoveFactory.board, .available, .move"])
p("C13", "Point and move notation is unambiguous in both directions",
  "Writing a point, the bar or off in either notation and reading it back for the same player gives the same place, and reading a valid label and writing it back gives the same label; distinct places get distinct labels for a player, and the two players' labels mirror each other. "
  "Any negative place counts as off; places beyond the bar and labels that name no place (in move notation, other than the numbers 0 and 25, whose meaning is left open) are refused with a value error, and the opponent of the opponent of a player is that player while anything else is refused.",
  I, "every place, label string and player", "Tests list sample points.",
  ["bglib/model/util.py"], [("position_pton/ntop, move_pton/ntop, flip_point, get_opp", "bglib/model/util.py")], ["return values, ValueError"])
p("C14", "Compact database positions and records round-trip",
  "Encoding a position in which no point is held by both sides gives 26 bytes from which decoding restores exactly both distributions, and encoding a decoded byte string of representable positions gives the same bytes. "
  "A whole board stored as a database record and turned back into a board is equal to the original, for either player on turn, and the record's attributes cannot be assigned. "
  "The distance between two encoded positions is the sum of squared per-place differences: symmetric, and zero only for equal strings.",
  I, "every position with up to 15 checkers a side, every board", "Tests encode a handful of positions.",
  ["bglib/encoding/dbbyte.py"], [("encode_position, decode_position, signedord, signedchr, distance, DatabaseBytesExpression", "bglib/encoding/dbbyte.py")], ["return values"])
p("C15", "GNU Backgammon position IDs round-trip",
  "For every position with at most 15 checkers a side, the ten-byte position key starts with one bit per checker and a zero bit per place, in little-endian bit order, padded with zeros, and the 14-character ID decodes to exactly the original two distributions. "
  "Distinct positions get distinct IDs.",
  I, "every pair of 25-place distributions with at most 15 checkers each", "Tests try a few positions, and need a library that is absent here.",
  ["bglib/encoding/gnubgid.py"], [("seq2bytes, byts2seq, twoside_encode/decode, encode_position/decode_position, ByteContext", "bglib/encoding/gnubgid.py")], ["return values"])
p("C16", "Reading an XG ID fills the board exactly or fails with a decoding error",
  "Reading a well-formed XG ID sets the position, cube value and owner, player on turn and to act, dice, score, match length and Crawford flag to exactly what the text says, with the game ongoing, and changes no other attribute. "
  "Text with the wrong number of fields, non-numeric fields, a wrong position length or out-of-range owner, turn, dice, flag or match length is always reported as the library's decoding errors and never as anything else.",
  I, "every text", "Tests check some sample IDs and one malformed text per field at most; the module is not run by the stable suite at all.",
  ["bglib/encoding/xgid.py", "bglib/encoding/__init__.py"], [("decode, decode_position", "bglib/encoding/xgid.py")], ["model attributes, raised errors"])
p("C17", "Reading a FIBS board line fills the board exactly for both sides and colours",
  "Reading a FIBS board line of an ongoing game gives each player exactly the checkers of his colour on each point counted from his own side and on his bar, for either colour and either direction of play. "
  "The cube value is the power of two shown, its owner and the Crawford flag follow the may-double flags, the player on turn and his dice follow the turn field, a standing double passes the decision to the opponent, and match length and score are copied; all this works whichever player is on turn.",
  I, "every board line of an ongoing game", "Tests read four recorded lines, all with the same player on turn.",
  ["bglib/encoding/FIBS.py"], [("decode, _FIBSBoardState.position", "bglib/encoding/FIBS.py")], ["model attributes"])
p("C18", "Bear-off database indexes are a bijection with positions",
  "Turning a bear-off position of up to 15 checkers into its index and back gives the same position, every index in range is the index of exactly one position, and no position gets an index out of range. "
  "The GNU Backgammon index likewise numbers the positions of up to a given number of checkers on a given number of points without repetition from zero up to their count. "
  "The number of positions per checker count matches the combinatorial formula the index is built on.",
  I, "every distribution of the supported number of checkers over the home points", "Tests check a few listed indexes and need a library that is absent here.",
  ["bglib/encoding/bearoff/__init__.py", "bglib/encoding/bearoff/nori.py", "bglib/encoding/bearoff/gnubgdb.py"],
  [("oneside_upto6_t2k/k2t, oneside_index, f, sigmaD, D", "bglib/encoding/bearoff/")], ["return values"])
p("C19", "Rating and tournament chances are consistent probabilities and exact gains",
  "For any two ratings and any positive match length the upset and the favourite's winning chance are probabilities that add up to one, the upset chance never exceeds one half, is one half for equal ratings, and never grows with the rating gap or the match length. "
  "What the winner would gain from a win is between zero and the match length, and the two players' possible gains add up to the match length. "
  "Tournament winner and runner-up chances are probabilities, grow with the player's rating for the winner, and the handicapped prize and entry fee of an average player are the unhandicapped ones.",
  I, "every pair of ratings, match length and number of rounds", "Tests compare a few decimals at sample ratings.",
  ["bglib/stat/rating.py", "bglib/stat/tourney.py"], [("upset_chance, winning_chance, gain_on_win", "bglib/stat/rating.py"), ("tourney_chance, prize_handicap, entryfee_handicap", "bglib/stat/tourney.py")], ["return values"])
p("C20", "A tournament round costs exactly one life per pairing and loses nobody",
  "After a round, whatever the draw and the results, every entrant is either alive or dead and never both, the dead are exactly those whose lives ran out and they stay dead, and exactly one player of each pair formed from the living has lost exactly one life. "
  "With an odd number of living players the one left over loses nothing, and ratings never change.",
  H, "every set of entrants with any lives and ratings, every draw, every sequence of results", "The tests run random tournaments without looking at the draw.",
  ["bglib/stat/tourney.py"], [("Tourney.round, Player", "bglib/stat/tourney.py")], ["Tourney.alive, Tourney.dead, Player.lives"])
p("C21", "Escaped text and element attributes can never break out of HTML",
  "Escaping replaces every less-than, greater-than and ampersand by its entity and leaves every other character, in order, as it is, so that the result contains no markup character of the input and different inputs give different outputs. "
  "Attribute values are written escaped in the opening tag of an element, with double quotes replaced by their entity too, so that no value can end its attribute.",
  I, "every text", "Tests escape a few sample strings.",
  ["bglib/doc/html.py", "bglib/doc/doctree.py"], [("escape", "bglib/doc/html.py"), ("BgWikiElementNode.open", "bglib/doc/doctree.py")], ["returned text"])
p("C22", "Document trees are written as balanced HTML and edited without losing nodes",
  "Writing any document tree visits every node exactly once in document order and closes every opened element exactly once, after its children and in reverse order. "
  "While a document is edited, an appended node becomes the last child of the nearest node that accepts it among the position and its enclosing nodes (a node is enclosed by the position at which it was made), and the position moves there, entering moves to the new node, leaving moves to the parent of the nearest enclosing node of the asked kind and does nothing if there is none, text is merged into a directly preceding text, and no other node is touched.",
  H, "every tree and every sequence of editing operations", "Tests build a few trees.",
  ["bglib/doc/doctree.py"], [("Node.accept, HtmlWriter, Editor", "bglib/doc/doctree.py")], ["tree and HTML text"])
p("C23", "The drawn board shows exactly the given position",
  "A picture made of a board that can occur in play (at most fifteen checkers a side, and no dice on the table while a double or a resignation awaits its answer) has on every point, bar and home exactly the checkers each player has there (you from your side, him mirrored, home holding the rest of fifteen), with the exact counts and nothing where there is none. "
  "Scores, match length and Crawford are shown as given; the cube appears exactly once: with its owner or in the centre at its value, or, while a double waits for an answer, before the player to answer at twice the value; the dice, the resignation and the caption shown are those of the player concerned.",
  I, "every board state that describes a turn", "Tests draw a few boards and compare snapshots.",
  ["bglib/image/base.py"], [("ElementTree.set, create_tree", "bglib/image/base.py")], ["element tree"])
p("C24", "Drawn pieces show their number and picture scaling stays in bounds",
  "A drawn die in dot style shows exactly as many dots as its number, symmetric around the centre; a stack shows as many checkers as it has up to the maximum and a number exactly when there are more and the number is not hidden; a cube shows two to the power of its value, a resignation its level. "
  "Fitting a picture into a bound never makes it exceed the bound in either direction and keeps its proportions, and every element is drawn at its scaled place and size (scaling a length gives the whole number of units next to the exact product, towards zero).",
  I, "every number, place, size, style and scale", "Tests draw one or two examples with fixed sizes.",
  ["bglib/image/base.py"], [("Die.draw, Chequer.draw, Cube.draw, Resign.draw, Board.set_mag, calc_mag", "bglib/image/base.py")], ["calls on the drawing context"])
p("C25", "Style rules match as descendant selectors and set validated attributes",
  "A selector matches an element exactly when the name, the attribute (and its value) and the text it asks for are those of the element; a rule matches a path exactly when its last selector matches the element and the others match some of its ancestors in order. "
  "A rule that matches sets exactly its attributes on that element and no other, a later value replaces an earlier one, a value of the wrong type is refused and changes nothing, and an attribute that is not set comes from the nearest ancestor that has it when it is inherited, else from its default.",
  I, "every path of elements and every rule", "Tests match one- and two-level paths.",
  ["bglib/image/css.py", "bglib/image/base.py"], [("Selector.is_match, Rule.is_match/apply", "bglib/image/css.py"), ("BaseElement.__getattr__/__setattr__/apply", "bglib/image/base.py")], ["match results, element attributes"])
p("C26", "The FIBS message classifier follows the login, message-of-the-day and run phases",
  "A session starts in the login phase, enters the message-of-the-day phase exactly on the begin marker, the run phase exactly on the end marker, and returns to the login phase exactly on the goodbye; any other message leaves the phase unchanged. "
  "A message is given the name of a pattern of the current phase that it matches, the fixed default name exactly when it matches none (an empty line in the run phase its own name), and kinds matched more recently are tried first.",
  H, "every sequence of messages", "One test classifies a recorded session.",
  ["bglib/protocol/fibs.py"], [("CookieMonster.make_cookie, State.make_cookie/candidates/bring_to_top, next_state", "bglib/protocol/fibs.py")], ["returned names, state"])
p("C27", "Guarded session operations always release the lock and deliver each message once",
  "Every guarded operation of a session takes the session's lock once before and releases it once after its body, whether the body returns or raises, and passes the result or the error on. "
  "A dispatched message is delivered exactly once to every registered subscriber that handles it, in order of registration, and to no other.",
  H, "every operation outcome, every list of subscribers and every message", "The tests need a live server and are not run.",
  ["bglib/protocol/session.py"], [("synchronized_with, Session._dispatch/register/unregister", "bglib/protocol/session.py")], ["lock calls, subscriber calls"])
p("C28", "A Snowie match text is accepted exactly when its lines follow the format's order",
  "A line is accepted exactly when its kind may follow the kind of the last line that was not rejected (match length first, then games of header, players and moves), empty lines being allowed anywhere, and moves of a game are numbered consecutively from one. "
  "A rejected line raises a value error and changes neither the expected next kind nor the count.",
  H, "every sequence of line kinds and move numbers", "Tests feed recorded files and shuffles of them and need libraries that are absent here.",
  ["bglib/record/snowietxt.py"], [("statevalidate, LineValidator handlers", "bglib/record/snowietxt.py")], ["raised errors, state"])
p("C29", "Any wiki text is turned into balanced HTML without failing",
  "Formatting any text written in the wiki markup finishes without an error and gives HTML in which every opened element is closed in the right order. "
  "Text that is not markup appears in the output escaped and exactly once, in its original order within each element. (Text handed to another formatter by name, and the database behind the analysis macro, are outside.)",
  ["inputs", "programs"], "every text", "A thousand lines of example-based tests and a random fuzzer sample the text space.",
  ["bglib/doc/bgwiki.py", "bglib/doc/macro.py"], [("Formatter.parse, LineFormatter, WrappingFormatter", "bglib/doc/bgwiki.py")], ["HTML text"])
p("C30", "GNU Backgammon match IDs carry every field",
  "For every match state whose fields are in the format's ranges the match key has exactly nine bytes and every field in its documented bits, the match ID has twelve letters and decodes to the same fields, and writing one field leaves the bits of the others alone. "
  "Encoding a board and decoding the pair of IDs restores every match field and both sides' checkers; a board whose match length and score contradict each other, or an ID with padding, is refused with an error.",
  I, "every combination of field values and every pair of positions", "Tests compare a handful of IDs copied from GNU Backgammon.",
  ["bglib/encoding/gnubgid.py"], [("MatchProxy and its validators", "bglib/encoding/gnubgid.py"), ("encode_match, decode_match, encode, decode", "bglib/encoding/gnubgid.py")], ["match ID text, decoded fields"])
if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
