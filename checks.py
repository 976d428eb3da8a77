"""Registry of the checks: binaries, monitors, case counts per tier."""
WRAP = ["-Wl,--wrap=exit"]
BINS = {
    "match": {"src": ["m_match.cc", "exit_wrap.cc"], "units": "lib", "link": WRAP},
}
BINS["tre"] = {"src": ["m_tre.cc", "dot_io.cc", "exit_wrap.cc"], "units": "tre", "link": WRAP}
BINS["stream"] = {"src": ["m_stream.cc", "exit_wrap.cc"], "units": "lib", "link": WRAP}
BINS["dot"] = {"src": ["m_dot.cc", "dot_io.cc", "exit_wrap.cc"], "units": "lib", "link": WRAP}
BINS["monaa"] = {"units": "monaa"}
BINS["tre2ta"] = {"units": "tre2ta"}
NOT_APPLICABLE = []
CHECKS = {}


def add(pid, title, monitors, rule, technique, note, **kw):
    CHECKS[pid] = dict(title=title, monitors=monitors, rule=rule, technique=technique, note=note, **kw)


def mon(bin, name, quick, thorough, tq=200, tt=1500, flavour="opt"):
    return {"bin": bin, "name": name, "quick": (quick, tq), "thorough": (thorough, tt), "flavour": flavour}


MATCH_RULE = ("case = random pattern automaton (arbitrary graphs, chains, borders, layered nondeterminism, "
              "many clocks, scaled constants, arbitrary labels) x random timed word (guided runs of the pattern plus noise); "
              "non-trivial: a match exists or a zone was reported; distinct: by the text of the case")
MATCH_NOTE = ("Held on the executions produced; every (t,t') of a grid that contains a representative of each clock "
              "region of the case is compared with an independent pointwise simulation of the pattern. Guard constants and "
              "word sizes are bounded by the generators.")
add("C01", "event-mode soundness", [mon("match", "dollar-sound", 24000, 500000)], MATCH_RULE,
    "runtime monitor of reported zones against a pointwise reference simulation", MATCH_NOTE)
add("C02", "event-mode completeness", [mon("match", "dollar-complete", 24000, 500000)], MATCH_RULE,
    "runtime monitor of reported zones against a pointwise reference simulation", MATCH_NOTE,
    assumptions=["timestamps strictly increase", "matches that contain no event are outside the property"])

add("C03", "exactness without a terminator", [mon("match", "plain-exact", 24000, 500000)], MATCH_RULE,
    "runtime monitor of reported zones against a pointwise reference simulation", MATCH_NOTE,
    assumptions=["timestamps strictly increase"])
add("C04", "well-formed zones", [mon("match", "dollar-zones", 12000, 300000), mon("match", "plain-zones", 12000, 300000),
                                 mon("match", "nn-zones", 12000, 300000),
                                 mon("dot", "dot-cli", 4000, 60000)], MATCH_RULE,
    "runtime assertion on every reported zone; printed text against the zones reported", MATCH_NOTE, extra=[("monaa", "opt")])
add("C05", "optional terminators", [mon("match", "nn-dollar", 12000, 300000), mon("match", "nn-mixed", 14000, 300000)], MATCH_RULE,
    "runtime monitor of reported zones against a pointwise reference simulation", MATCH_NOTE,
    assumptions=["timestamps strictly increase", "matches that contain no event are outside the property"])
TRE_NOTE = ("Held on the executions produced. The reference is a memoised membership test of the expression "
            "(no automata); constants up to 4 in most expressions, words up to 14 events; guided samples of the language, "
            "perturbed samples and random words.")
add("C06", "TRE to event automaton", [mon("tre", "tre-language", 1000000, 20000000)],
    "case = random TRE x 31 words (guided samples of the language, perturbed samples, random words); non-trivial: a word of length > 1 is in the language",
    "runtime monitor: acceptance of the produced automata against a reference TRE semantics", TRE_NOTE,
    assumptions=["a duration restriction with an interval containing 0 is not applied to a nullable expression (no agreed meaning)"])
add("C07", "TRE pattern matching end to end", [mon("tre", "tre-lang-dollar", 600000, 10000000), mon("tre", "tre-match", 4000, 100000), mon("tre", "tre-cli", 2000, 40000)],
    "case = random TRE pattern ending with $ x random word; non-trivial: a match exists or a zone was reported",
    "runtime monitor of reported/printed zones against a reference TRE semantics", TRE_NOTE, extra=[("monaa", "opt")],
    assumptions=["timestamps strictly increase", "matches that contain no event are outside the property"])
add("C08", "TRE parser", [mon("tre", "tre-parse", 1000000, 15000000)],
    "case = spelling of a random expression (half of them mutated); non-trivial: rejected, or a word of length > 1 is in the language",
    "runtime monitor: accept/reject and denotation against an independent recursive-descent reader", TRE_NOTE)

add("C09", "DOT automata", [mon("dot", "dot-read", 100000, 1000000), mon("dot", "dot-write", 100000, 1000000),
                            mon("tre", "tre2ta", 6000, 60000), mon("dot", "dot-bad", 16000, 200000),
                            mon("dot", "dot-cli", 8000, 100000)],
    "case = random automaton x random DOT spelling of it; random expression; malformed DOT text",
    "runtime monitor: isomorphism of the automaton read with the one spelled, and printed zones against a pointwise reference simulation",
    "Held on the executions produced; spellings are drawn from quoting, attribute order and grouping, defaults, omitted "
    "attributes, comments, statement order.", extra=[("monaa", "opt"), ("tre2ta", "opt")])
add("C10", "event stream", [mon("stream", "stream", 60000, 1000000)],
    "case = script of fetches, reads and window moves over a stream written piecewise into a pipe or file; non-trivial: events were delivered",
    "runtime monitor: the container against a model, with a watchdog on blocked reads",
    "Held on the executions produced (ASCII and binary, pipe and file, malformed tails).")
add("C11", "online operation", [mon("stream", "online", 40000, 600000), mon("stream", "causal", 4000, 150000),
                             mon("dot", "online-cli", 8000, 60000)], MATCH_RULE,
    "runtime monitor: stream positions at the moment each zone is reported; zones on the terminal before the next event is written",
    "Held on the executions produced.", extra=[("monaa", "opt")],
    assumptions=["timestamps strictly increase"])

add("C13", "command line", [mon("dot", "cli-forms", 3000, 40000), mon("dot", "cli-errors", 4000, 40000)],
    "case = pattern and log handed over in 6 different ways; wrong invocations of 16 kinds",
    "runtime monitor: status, standard output and standard error of the tools",
    "Held on the executions produced. Wrong invocations have one fault at a time.", extra=[("monaa", "opt"), ("tre2ta", "opt")])

BINS["ta"] = {"src": ["m_ta.cc", "exit_wrap.cc"], "units": "lib", "link": WRAP}
BINS["zone"] = {"src": ["m_zone.cc", "exit_wrap.cc"], "units": "lib", "link": WRAP}
TA_NOTE = "Held on the executions produced; sizes of automata and constants are bounded by the generators."
add("C15", "product of automata", [mon("ta", "product", 500000, 8000000)],
    "case = two random automata x sampled words; non-trivial: a word is accepted by both",
    "runtime monitor: acceptance of the product against a pointwise simulation of both operands", TA_NOTE)
add("C16", "zone automaton", [mon("ta", "zone-automaton", 1500000, 30000000)],
    "case = random automaton; non-trivial: a cycle or several locations are reachable",
    "runtime monitor: locations and emptiness of the zone automaton against a region graph", TA_NOTE)
add("C17", "zones", [mon("zone", "zone-ops", 4000000, 30000000)],
    "case = random sequence of zone operations; non-trivial: time elapsed and more than two operations took effect",
    "runtime monitor: the zone after every operation against an integer difference bound matrix kept beside it", TA_NOTE)
add("C18", "intervals", [mon("zone", "intervals", 600000, 12000000)],
    "case = random intervals",
    "runtime monitor: interval operations against their pointwise definitions", TA_NOTE)
add("C19", "skip values", [mon("ta", "sunday", 1000000, 15000000), mon("ta", "skip", 16000, 400000)],
    "case = random pattern automaton (x a word); non-trivial: the pattern is not empty / a match is within reach of a jump",
    "runtime monitor: skip values against a region graph and against the matches of concrete words", TA_NOTE)

BINS["meta"] = {"src": ["m_meta.cc", "exit_wrap.cc"], "units": "lib", "link": WRAP}
add("C12", "invariance of the result", [mon("meta", "repeat", 6000, 150000), mon("meta", "twist", 10000, 250000),
                                        mon("meta", "containers", 2500, 60000)], MATCH_RULE,
    "runtime monitor: canonical zones of transformed and repeated runs against those of the first run",
    "Held on the executions produced. The zones are compared as sets of canonical zones.",
    assumptions=["timestamps strictly increase"])
add("C20", "runs and copies of automata", [mon("meta", "automaton", 1000000, 15000000)],
    "case = random automaton x sampled words; non-trivial: a word is accepted",
    "runtime monitor: acceptance against a pointwise simulation; isomorphism and independence of copies", TA_NOTE)
add("C22", "patterns with silent transitions", [mon("match", "eps-exact", 20000, 300000)],
    "case = random pattern automaton with silent transitions x random timed word; non-trivial: a match exists or a zone was reported",
    "runtime monitor of reported zones against difference constraints of the runs", MATCH_NOTE,
    assumptions=["timestamps strictly increase", "no silent transition has an accepting target"])

add("C21", "signal mode", [mon("tre", "sig-language", 700000, 12000000), mon("tre", "sig-match", 50000, 1000000),
                           mon("tre", "sig-cli", 6000, 100000)],
    "case = random TRE without `$` x random signal (guided samples of the language, perturbed samples, random signals); "
    "non-trivial: a signal of more than one value is in the language / a match exists",
    "runtime monitor: acceptance of the automata and zones reported and printed against a piecewise reference semantics on a grid of instants",
    TRE_NOTE + " Signals are logs in which consecutive values differ; the reference is a bit matrix per subexpression over a "
    "grid four to eight times finer than the constants.", extra=[("monaa", "opt")],
    assumptions=["consecutive values of the log differ, timestamps strictly increase",
                 "a duration restriction is applied to expressions that take time, with an interval that does not contain 0",
                 "a conjunction stands below a concatenation only if the instant between its operands is unique (otherwise: known finding)",
                 "single gap points between the multiples of a closed interval may be filled (pinned by a unit test of the repository)"])

# Memory safety: the same workloads with the sanitizers; only crashes, reports of
# the sanitizers and hangs count.


def san(bin, name, quick, thorough, tq=120, tt=1200):
    return dict(mon(bin, name, quick, thorough, tq, tt, "san"), crash_only=True)


add("C14", "memory safety", [san("dot", "hostile", 4000, 80000),
                             san("match", "dollar-sound", 1500, 40000), san("match", "plain-exact", 1200, 30000),
                             san("match", "nn-mixed", 1200, 30000), san("match", "eps-exact", 600, 12000),
                             san("tre", "tre-language", 20000, 400000), san("tre", "tre-parse", 20000, 400000),
                             san("tre", "tre-match", 400, 8000),
                             san("tre", "sig-language", 12000, 300000), san("tre", "sig-match", 600, 12000),
                             san("dot", "dot-read", 10000, 100000), san("dot", "dot-bad", 1000, 20000),
                             san("stream", "stream", 4000, 80000), san("ta", "product", 10000, 200000),
                             san("ta", "zone-automaton", 30000, 600000), san("ta", "sunday", 30000, 600000),
                             san("zone", "zone-ops", 60000, 1000000), san("zone", "intervals", 4000, 80000),
                             san("dot", "cli-errors", 400, 8000)],
    "case = the workloads of the other monitors and hostile input, run with AddressSanitizer, UndefinedBehaviorSanitizer and "
    "checked iterators; non-trivial: as in those monitors, or the input was accepted or rejected with a message",
    "AddressSanitizer, UndefinedBehaviorSanitizer, library assertions",
    "Held on the executions produced.", extra=[("monaa", "san"), ("tre2ta", "san")])
