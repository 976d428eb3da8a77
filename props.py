#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 props.py)."""
import json, os

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


ZONES = ["zones pushed to the answer container"]
prop("C01", "Event-mode matching reports only real matches",
     "For every pattern automaton whose matches end with the terminator `$` and every timed word with non-decreasing timestamps, every interval (t,t') contained in a zone reported by event-mode timed pattern matching is a match: the events strictly inside the interval, shifted by -t and followed by `$` at t'-t, form a word the pattern accepts. No interval starting before time 0 or at/after the last event is reported.",
     ["inputs", "programs"], "all pattern automata (states, clocks, strict/non-strict guards, resets, several initial states, nondeterminism, any labels) and all timed words; every point (t,t') of every reported zone",
     "The unit and integration tests run a handful of fixed patterns on fixed words and compare zone counts or text; boundary points of zones, reset clocks in end constraints and nondeterministic runs over arbitrary inputs are never compared with the definition of a match.",
     ["libmonaa/monaa.hh", "libmonaa/zone.hh", "libmonaa/constraint.hh", "libmonaa/ans_vec.hh"],
     [("propagation of begin/end/difference bounds through guards", "libmonaa/monaa.hh monaaDollar"), ("rejection of empty constraint combinations", "libmonaa/monaa.hh isValidConstraint")], ZONES)
prop("C02", "Event-mode matching loses no match",
     "For every pattern automaton whose matches end with the terminator `$` and every timed word with strictly increasing timestamps, every match (t,t') that contains at least one event and starts before the last event lies in some zone reported by event-mode timed pattern matching. The skipping of start positions (Sunday-type and KMP-type) therefore never changes the set of matches, and a pattern that has such a match is never rejected as empty.",
     ["inputs", "programs"], "all pattern automata and all timed words; every matching interval (t,t'), wherever the skip heuristics jump",
     "The tests count the zones of a few fixed logs; a skip value that is too large loses a match only for particular combinations of pattern, timing and preceding events.",
     ["libmonaa/monaa.hh", "libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh", "libmonaa/zone_automaton.hh", "libmonaa/ta2za.cc", "libmonaa/intersection.cc"],
     [("Sunday-type skip value", "libmonaa/sunday_skip_value.hh"), ("KMP-type skip value", "libmonaa/kmp_skip_value.hh"), ("breadth-first run construction", "libmonaa/monaa.hh monaaDollar")], ZONES)
prop("C03", "Matching without a terminator is exact",
     "For every pattern automaton without `$` and without silent transitions, the zones reported by the `$`-free matching function cover exactly the intervals (t,t') with t before the last event such that the events strictly inside the interval, followed by the next event moved forward to t', form an accepted word. This holds for every timed word with strictly increasing timestamps; no such interval is lost to skipping and no other interval is reported.",
     ["inputs", "programs"], "all pattern automata without `$`/silent transitions, all timed words with increasing timestamps, every interval (t,t')",
     "The tests compare zone counts on two or three fixed inputs; the acceptance rule of this mode (the accepting event is moved forward) is never compared with its definition.",
     ["libmonaa/monaa.hh", "libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh"],
     [("accepting step with the next event moved forward", "libmonaa/monaa.hh monaa"), ("skip values", "libmonaa/kmp_skip_value.hh")], ZONES)
prop("C04", "Every reported zone is a well-formed, non-empty set of intervals",
     "In every matching mode each reported zone contains at least one interval (t,t'), all of its intervals satisfy 0 <= t <= t' with t not after the last event, and no bound is undefined. The text printed by the command-line tool shows exactly the zones the library reports, in the order they were found, with strict and non-strict bounds told apart.",
     ["inputs", "programs"], "all patterns, all timed words (also with simultaneous events), all three matching functions; every reported zone; every printed line",
     "The tests look at zone counts; an empty or inverted zone counts like any other, and the integration test compares the text of two fixed runs.",
     ["libmonaa/monaa.hh", "libmonaa/ans_vec.hh", "libmonaa/zone.hh"],
     [("rejection of empty constraint combinations", "libmonaa/monaa.hh isValidConstraint"), ("printing of zones", "libmonaa/ans_vec.hh PrintContainer")],
     ["zones pushed to the answer container", "standard output of monaa"])
prop("C05", "Matching with optional terminators is exact",
     "For every pattern automaton in which some accepting transitions are labelled with `$` and others with ordinary events, the zones reported by the matching function for optional terminators cover exactly the intervals (t,t') that start before the last event and are accepted either by inserting `$` at t' after the events inside, or by an ordinary accepting event that happens at t'. This holds for every timed word with strictly increasing timestamps, except that matches without any event may be left out.",
     ["inputs", "programs"], "all pattern automata mixing `$` and ordinary accepting transitions, all timed words with increasing timestamps, every interval (t,t')",
     "One unit test counts zones for one fixed pattern; the end bounds of matches accepted by an ordinary event are never looked at.",
     ["libmonaa/monaa.hh", "libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh"],
     [("the two kinds of accepting steps", "libmonaa/monaa.hh monaaNotNecessaryDollar")], ZONES)
prop("C06", "A timed regular expression and its event automaton agree",
     "For every timed regular expression built from event letters, concatenation, disjunction, conjunction, `+`, `*` and duration restrictions, the timed automaton it is translated to accepts a timed word exactly when the word belongs to the expression. The automaton is closed (all targets are states, all clocks are declared) and declares for each clock a maximal constant that covers all guards.",
     ["inputs", "programs"], "all expressions (nesting of every operator in every other, all interval forms, nullable operands) and all timed words",
     "The tests check a few words against about a dozen small expressions; wrong sharing of clocks or states shows only for particular nestings (iteration of restricted, nullable or intersected subexpressions) and particular timings.",
     ["monaa/tre.cc", "monaa/tre.hh", "libmonaa/intersection.cc", "libmonaa/interval.hh"],
     [("translation to event automata", "monaa/tre.cc toEventTA"), ("product for conjunction", "libmonaa/intersection.cc")],
     ["the automaton produced from the parsed expression"])
prop("C07", "Matching a timed regular expression is exact end to end",
     "For every timed regular expression whose words end with `$` and every timed word with increasing timestamps, the zones printed by the command-line tool (and reported by parsing, translating and matching in the library) cover exactly the intervals (t,t') whose events, shifted by -t and followed by `$` at t'-t, belong to the expression. Only intervals without any event may be missing.",
     ["inputs", "programs"], "all expressions and timed words; every interval (t,t'); text input, expression parser, translation, matching and printing together",
     "The integration tests compare the output of a few fixed pairs of pattern and log.",
     ["monaa/main.cc", "monaa/tre.cc", "monaa/tre_parser.yy", "monaa/tre_lexer.l", "libmonaa/monaa.hh", "libmonaa/lazy_deque.hh", "libmonaa/ans_vec.hh"],
     [("pipeline from expression and log to zones", "monaa/main.cc")], ["standard output of monaa", "zones pushed to the answer container"])
prop("C08", "The expression parser accepts exactly the documented syntax",
     "Every text is either rejected or accepted by the pattern parser according to the documented syntax, and an accepted text denotes the expression the syntax gives it: `+`, `*` and `%interval` bind to the preceding item, parentheses group, binary operators without parentheses group to the right, each interval form ((a,b), (a,b], [a,b), [a,b], <, <=, >, >=, =) keeps its bounds and strictness, and blanks do not matter. A text with a constant that cannot be represented is rejected; no constant is ever read as another one. A rejected text never yields a result.",
     ["inputs"], "all texts (grammatical, mutated and random) and all spellings of an expression",
     "The tests parse a few fixed strings and look at the top-level operator only.",
     ["monaa/tre_parser.yy", "monaa/tre_lexer.l", "monaa/tre_driver.hh", "doc/TRE.md"],
     [("grammar and tokens", "monaa/tre_parser.yy, monaa/tre_lexer.l")], ["result of parsing; language of the resulting automaton"])

prop("C09", "Automata keep their meaning when written and read as DOT",
     "Reading an automaton from a DOT text with the documented attributes (init, match, label, guard, reset) yields exactly the automaton the text describes, for every legal spelling: attribute order and grouping, quoting, defaults, omitted attributes (not initial, not accepting, no guard, no reset), any node names. Every clock that is used is declared with a maximal constant that covers its guards. Writing an automaton and reading it back gives the same automaton, so the automaton printed by tre2ta for an expression has the expression's language, and `monaa -f` with it reports the same zones as `monaa -e` with the expression. A malformed text, or one with labels, clocks or constants that cannot be represented, is rejected with an error and never yields a result.",
     ["inputs"], "all automata and all legal spellings; all expressions given to tre2ta; malformed texts",
     "The tests read four fixed files and look at some fields; nothing writes an automaton and reads it back.",
     ["monaa/timed_automaton_parser.hh", "monaa/tre2ta.cc", "libmonaa/timed_automaton.hh", "libmonaa/constraint.hh", "doc/TA.md"],
     [("reading DOT", "monaa/timed_automaton_parser.hh parseBoostTA, convBoostTA"), ("writing DOT", "libmonaa/timed_automaton.hh operator<<")],
     ["the automaton read", "standard output of tre2ta and monaa"])
prop("C10", "The input stream delivers every event once, unchanged and in order",
     "The stream containers deliver exactly the events of the input (ASCII or binary, from a file or a pipe), in order, with label and timestamp unchanged, and no others: a truncated or malformed event ends the stream and is not delivered. Positions before the front of the window or not yet fetched are refused, moving the front forward never loses a later event, and an event that has been written completely is delivered without waiting for further input.",
     ["inputs", "histories"], "all event sequences and encodings, every interleaving of writes, fetches, reads and front moves",
     "The tests read two fixed files from start to end; they never interleave window operations with a growing input and never feed a malformed or partial event.",
     ["libmonaa/lazy_deque.hh", "libmonaa/word_container.hh"],
     [("window over the input", "libmonaa/lazy_deque.hh LazyDeque"), ("reading one event", "libmonaa/lazy_deque.hh getOne, getOneBinary")],
     ["return values of fetch, operator[], at, size", "blocking of fetch"])
prop("C11", "Matching is online: reports come early and never depend on the future",
     "Matching reads the stream forward only. Each match is reported as soon as the events that decide it, plus at most a look-ahead bounded by the minimum length of the pattern, have been read; what is reported while a prefix of the log is known depends on that prefix alone; and the container keeps no more events than the longest run alive plus that look-ahead. With the command-line tool, a zone that is known after an event is on the terminal before the next event arrives.",
     ["inputs", "histories"], "all patterns and logs, every prefix of the log, every continuation of a prefix",
     "The tests hand over complete words and look at the result at the end; when a zone is reported, and what was read by then, is never observed.",
     ["libmonaa/monaa.hh", "libmonaa/lazy_deque.hh", "monaa/main.cc"],
     [("fetching before use, dropping of the prefix", "libmonaa/monaa.hh monaaDollar, monaaNotNecessaryDollar, monaa")],
     ["order of fetches and reports", "terminal output between events"])
prop("C13", "The command-line tools honour their documented interface",
     "The same pattern and log give the same output and status however they are handed over: pattern by -e/--expression or as the first argument, automaton by -f/--automaton, log by standard input, -i/--input or as the last argument, as text (default, -a) or binary (-b), options before or after. -q prints no zones; -h and -V print their text and succeed. A wrong invocation (unknown or incomplete option, contradicting options, unreadable or malformed automaton, unreadable log, malformed expression) ends with a non-zero status and a message on standard error, prints no result and does not crash.",
     ["inputs"], "all combinations of options, patterns and logs",
     "The integration test runs a handful of fixed commands on well-formed input.",
     ["monaa/main.cc", "monaa/tre2ta.cc", "doc/options.md", "doc/man.md"],
     [("option handling", "monaa/main.cc main")], ["exit status, standard output and standard error"])

prop("C15", "The product of two automata accepts the intersection of their languages",
     "For every two timed automata (with or without silent transitions, the same automaton twice, several initial states, different numbers of clocks and states) the product accepts a timed word exactly when both operands do. Clocks of the operands stay apart, the maximal constants cover the guards of both, all targets are states of the product, and the operands are not modified.",
     ["inputs", "programs"], "all pairs of automata and all timed words",
     "The unit tests build the product of two small automata and count states; nothing compares languages.",
     ["libmonaa/intersection.hh", "libmonaa/intersection.cc"],
     [("product construction", "libmonaa/intersection.cc intersectionTA, IntersectionAutomaton")],
     ["the product automaton", "the operands before and after"])
prop("C16", "The zone automaton decides reachability and emptiness",
     "For every timed automaton the construction of its zone automaton terminates, its states lie on exactly the locations that some timed run (with positive delays) reaches, it has an accepting state exactly when the automaton accepts some word, and removing the dead states keeps exactly the states from which an accepting state can be reached.",
     ["inputs", "programs"], "all timed automata (cycles, diagonal-free guards with all comparisons, constants 0, silent transitions, several initial states)",
     "The unit tests build the zone automata of three small automata and count states.",
     ["libmonaa/ta2za.cc", "libmonaa/ta2za.hh", "libmonaa/zone_automaton.hh", "libmonaa/zone.hh"],
     [("zone construction with abstraction", "libmonaa/ta2za.cc ta2za"), ("dead states", "libmonaa/zone_automaton.hh removeDeadStates"), ("abstraction", "libmonaa/zone.hh abstractize")],
     ["the zone automaton"])
prop("C17", "Zones are exact sets of clock valuations",
     "After every sequence of elapse, reset, tighten and canonize, a zone denotes exactly the set of clock valuations given by the definition of these operations: satisfiability is decided correctly and the canonical form holds the tightest bounds with the right strictness. Abstraction only adds valuations that the constants up to the maximum cannot tell apart, keeps non-empty zones non-empty with non-negative clocks, and bounds the constants.",
     ["inputs", "histories"], "all sequences of operations on zones of any number of clocks, strict and non-strict bounds, any constants",
     "The unit tests apply a few operations to fixed zones.",
     ["libmonaa/zone.hh"],
     [("difference bound matrix", "libmonaa/zone.hh Zone")], ["entries of the matrix", "isSatisfiable"])
prop("C18", "Interval operations agree with their pointwise meaning",
     "Intersection, sum and Kleene closure of intervals, the intersection of unions of intervals, and the constraints made from intervals contain exactly the points their definitions give them (the Kleene closure of an interval of positive length may in addition fill single-point gaps between consecutive multiples), with the right strictness at each end and with infinite upper bounds. Guard constraints hold at exactly the values their comparison says.",
     ["inputs"], "all intervals (open, closed, degenerate, empty, unbounded) and all values",
     "The unit tests check a few fixed pairs of intervals with closed ends.",
     ["libmonaa/interval.hh", "libmonaa/constraint.hh"],
     [("operators on intervals", "libmonaa/interval.hh"), ("constraints", "libmonaa/constraint.hh")], ["results of the operators"])
prop("C19", "Skip tables never jump over a match",
     "For every pattern the Sunday-type table holds the exact length of the shortest accepted word, all labels that can stand at that position, and for each label a jump that cannot pass a match. The KMP-type table holds, for each state in which a trial may end, a jump that cannot pass a match. Building the tables terminates and reports a pattern as empty exactly when it accepts no word with positive delays.",
     ["inputs", "programs"], "all pattern automata, all words, all states in which a trial may end",
     "The unit tests compare the tables of a few small automata with stored values.",
     ["libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh", "libmonaa/zone_automaton.hh", "libmonaa/ta2za.cc", "libmonaa/intersection.cc"],
     [("Sunday-type skip value", "libmonaa/sunday_skip_value.hh SundaySkipValue"), ("KMP-type skip value", "libmonaa/kmp_skip_value.hh KMPSkipValue")],
     ["skip tables"])

prop("C12", "The result depends only on the pattern and the timed word",
     "In every matching mode the set of reported zones is a function of the pattern's meaning and the timed word: running again, interleaved with other runs, with the eager or the lazy container, from text or binary input, with the vector, counting or printing answer container gives the same zones; so do a pattern with its states, initial states, transitions and accepting flags listed in another order, clocks renumbered, guards or resets repeated, letters renamed consistently in pattern and word, and all times of pattern and word multiplied by the same factor (the zones are multiplied too). A run changes neither the caller's pattern nor any state another run sees.",
     ["inputs", "programs", "histories"], "all patterns, timed words, permutations, renamings and factors; all sequences of runs in one process",
     "The tests run each pattern once, in the order it was written; no test relates two runs to each other.",
     ["libmonaa/monaa.hh", "libmonaa/word_container.hh", "libmonaa/lazy_deque.hh", "libmonaa/ans_vec.hh", "libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh"],
     [("matching functions", "libmonaa/monaa.hh"), ("containers", "libmonaa/word_container.hh, libmonaa/lazy_deque.hh, libmonaa/ans_vec.hh")],
     ["zones pushed to the answer container", "the caller's pattern after a run"])
prop("C14", "No input makes the tools or the library misbehave",
     "Whatever expression, DOT text, event log and command line is given, in text or binary form, complete or cut off anywhere, the tools and the library never read or write memory out of bounds, use freed or uninitialised objects, leave iterators dangling, overflow signed arithmetic, dereference null, or end by a signal or an uncaught exception: a run ends with its results or with a message and a status of its own.",
     ["inputs", "programs", "fault_sequences"], "all texts and byte strings as pattern, log and command line; all calls of the library the matching, parsing and translation functions make",
     "The tests run without sanitizers on well-formed input; an out-of-bounds access or an overflow on unusual input does not change what they compare.",
     ["libmonaa/monaa.hh", "libmonaa/zone.hh", "libmonaa/intermediate_zone.hh", "libmonaa/intersection.cc", "libmonaa/lazy_deque.hh", "libmonaa/word_container.hh", "monaa/main.cc", "monaa/tre2ta.cc", "monaa/tre.cc", "monaa/timed_automaton_parser.hh", "monaa/tre_lexer.l"],
     [("per-label tables", "libmonaa/zone_automaton.hh"), ("destruction of deep expressions", "monaa/tre.cc"), ("constants", "monaa/tre_lexer.l")],
     ["status and standard error of the tools", "sanitizer reports"])
prop("C20", "Membership in a timed automaton and copies of automata",
     "For every timed automaton and timed word, the membership test accepts the word exactly when some run from an initial state to an accepting state takes the events at their times with all guards satisfied and resets applied, whether the automaton is nondeterministic or not. A deep copy has the same states, initial and accepting states, transitions, guards, resets and constants, shares no state with the original, and changing one never changes the other.",
     ["inputs", "programs"], "all automata and timed words; every copy",
     "The tests check a few words on small automata and copy one automaton.",
     ["libmonaa/timed_automaton.hh"],
     [("simulation of sets of configurations", "libmonaa/timed_automaton.hh isMember"), ("copying", "libmonaa/timed_automaton.hh deepCopy")],
     ["results of isMember and deepCopy"])
prop("C21", "Signal mode reports exactly the matches of the expression",
     "In signal mode (monaa -S) a log is read as a signal that has the value c on (s,t] when the event c at t follows an event (or the start of the log) at s. For every expression without `$` built from values, concatenation, disjunction, conjunction, `+`, `*` and duration restrictions (of expressions that take time, with intervals of positive numbers, open or closed), the automaton made from the expression accepts exactly the signals that belong to it, where a value stands for any time it lasts and pieces of one value may be split anywhere; and the zones reported by the library and printed by the tool contain exactly the non-empty intervals (t,t') within the log on which the signal belongs to the expression. This holds for every log whose timestamps strictly increase and whose consecutive values differ. Building the automaton terminates or reports that the expression is too large.",
     ["inputs", "programs"], "all such expressions (nested and iterated restrictions, splits of one value among several restrictions, conjunctions that move separately) and all signals; every interval (t,t')",
     "The unit tests look at the intermediate form of a few expressions and at a handful of signals; no test runs the tool in signal mode with more than a fixed example.",
     ["monaa/intermediate_tre.cc", "monaa/intermediate_tre.hh", "monaa/tre.cc", "monaa/tre.hh", "libmonaa/intersection.cc", "libmonaa/interval.hh", "libmonaa/monaa.hh", "monaa/main.cc"],
     [("normal form of signal expressions", "monaa/intermediate_tre.cc"), ("translation to signal automata", "monaa/tre.cc toSignalTA"), ("product with separate moves", "libmonaa/intersection.cc intersectionSignalTA")],
     ["the automaton made by toSignalTA", "zones pushed to the answer container", "standard output of monaa -S"])
prop("C22", "Matching with silent transitions is exact",
     "For every pattern automaton without `$` that contains silent transitions (in cycles or not; the transitions into accepting states are labelled) and every timed word with strictly increasing timestamps, the zones reported by the `$`-free matching function contain every interval (t,t') for which there is a run over the events inside the interval whose silent transitions happen at times strictly between the events around them, and only intervals for which there is a run whose silent transitions happen at or between them. Matching terminates.",
     ["inputs", "programs"], "all such patterns and timed words, every interval (t,t')",
     "No test matches a pattern with silent transitions against a word and looks at the zones.",
     ["libmonaa/monaa.hh", "libmonaa/intermediate_zone.hh", "libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh", "libmonaa/intersection.cc", "libmonaa/ta2za.cc"],
     [("silent steps of a trial", "libmonaa/monaa.hh monaa (branch for silent transitions)"), ("skip values under zero delays", "libmonaa/ta2za.cc")],
     ["zones pushed to the answer container"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
