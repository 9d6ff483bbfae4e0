"""What each check runs, and what its counts mean.

A phase is ((build, scheduling), options): build "plain" has a coverage and
perturbation point before every statement, "sync" also replaces the sync
primitives and announces goroutines so that the seeded scheduler controls them,
"race" is "plain" under the Go race detector. Scheduling "cover" runs alone,
"perturb" runs freely with injected yields and sleeps, "controlled" runs one
goroutine at a time as the scheduler chooses.
"""

def seq(q=1.0, t=None):
    t = t or q
    return (("plain", "cover"), dict(quick=q, thorough=t))


def ctl(q=1.0, t=None):
    t = t or q
    return (("sync", "controlled"), dict(quick=q, thorough=t))


def free(q=1.0, t=None, procs=4):
    t = t or q
    return (("plain", "perturb"), dict(quick=q, thorough=t, procs=procs))


def race(part="", q=1.0, t=None, procs=4):
    t = t or q
    return (("race", "perturb"), dict(part=part, quick=q, thorough=t, procs=procs))


def large():
    return (("plain", "cover"), dict(part="large", quick=4.0, thorough=40.0))


def slow():
    return (("plain", "perturb"), dict(part="slow", quick=1.0, thorough=1.0, procs=4))


PHASES = {
    "S01": [seq(6)], "S02": [seq(6)], "S03": [seq(5)], "S04": [seq(8)], "S05": [seq(15)], "S06": [seq(15)],
    "A01": [seq(15)], "A02": [seq(12)], "A03": [seq(4)], "A04": [race(q=5)], "A05": [seq(25)],
    "R01": [ctl(8), large()], "R02": [ctl(5), slow(), large()], "R03": [ctl(7), large()], "R04": [ctl(6), large()], "R05": [ctl(5), large()], "R06": [ctl(60), large()],
    "R07": [ctl(3), free(3), slow(), large()], "R08": [ctl(40), slow()],
    "X01": [ctl(5), free(1.5), slow()], "X02": [ctl(8), race("race", q=10)], "X03": [ctl(6), free(10), slow()], "X04": [ctl(4), free(0.7), slow()],
    "X05": [ctl(4), free(3)], "X06": [ctl(5), free(8), slow()],
    "S07": [seq(9)], "S08": [seq(6)], "R09": [seq(3)], "R10": [seq(3)], "X07": [ctl(3), free(2), slow()], "X08": [race(q=10)],
    "J01": [seq(1.5)], "J02": [seq(3)], "J03": [seq(4)],
    "C01": [seq(1)],
}

_HIST = ("seeded histories of puts (plain, named, with separate statement; vocabularies with collisions, accents, invalid UTF-8, "
         "constants of the code under test) into an index or a repository with one of several analyzers, 1 to some 1000 documents, each "
         "followed by queries checked against a reference that scans the documents; a case is non-trivial when it put documents and "
         "searched, and distinct by its full operation log")
_REPO = ("seeded sequences of repository operations over small name universes (names serve as indices and aliases alike), each followed by "
         "a comparison of every observable answer with a sequential model; one case is one sequence, all non-trivial, distinct by its "
         "operation log")
_CONC = ("seeded client programs on shared names, run many times: under a seeded scheduler that can switch before any statement and at any "
         "lock operation (random-walk and priority schedules), and freely with injected delays; a run is non-trivial when %s, and "
         "distinct by its schedule and what was observed")

RULES = {
    "C01": "families of calls (analyzing, computing word regions, putting, searching, dumping, encoding, decoding, sorting) over families of "
           "inputs (different words, one word repeated, one long word, punctuation, bytes that are no text, nested JSON, many documents), each "
           "measured at sizes four times apart in statements executed, bytes allocated and processor time; a case is one family at all sizes, "
           "all non-trivial, distinct by family and seed",
    "S01": _HIST, "S02": _HIST, "S03": _HIST, "S04": _HIST, "S05": _HIST, "S06": _HIST,
    "A01": "every Unicode code point and every byte pair in several contexts, then seeded texts (valid and invalid UTF-8) and seeded predicate "
           "lists, all compared with a reference splitter; non-trivial when the text holds a word, distinct by text (and predicates) or block",
    "A02": "seeded word lists through each filter and seeded filter chains over seeded texts, every stop word, every vocabulary word through the "
           "stemmer, with inputs and earlier outputs compared again afterwards; distinct by filters and text",
    "A03": "seeded collections of Spanish and other texts, each searched with many rewritings of one query and through a collection in other "
           "case and punctuation; every vocabulary and stop word alone; distinct by query and collection",
    "A04": "seeded storms of 3 to 8 goroutines analyzing with one pipeline, or searching one index, under the race detector with injected "
           "delays, each answer compared with the reference; one storm is one case, all non-trivial, distinct by content",
    "A05": "every word up to a length over a vowel/consonant/accent byte alphabet, every word of a Spanish vocabulary with its prefixes and suffixes, "
           "seeded words and bytes, compared with the definition; distinct by word or block of words",
    "R01": _REPO, "R02": _REPO, "R03": _REPO, "R04": _REPO, "R05": _REPO,
    "R06": _REPO + "; listings and streams are kept across later operations and compared again, and some are overwritten by the caller",
    "R07": "seeded repositories with aliases over several indices of varying speed, each search repeated under different schedules and delays and "
           "compared; distinct by schedule and operation log",
    "R08": "seeded sequences and concurrent mixes of operations on a repository whose indices record every call they get, compared with the calls the "
           "model predicts; distinct by schedule and operation log",
    "X01": _CONC % "operations of different clients overlap; every history is given to a linearizability checker with the sequential model",
    "X02": _CONC % "it completes" + "; the race-detector phase runs storms of free-running goroutines, each storm being one case",
    "X03": _CONC % "all operations and a probe of every operation afterwards return" + "; also sequences with failing operations",
    "X04": _CONC % "all puts return; the documents then stored are compared with those put",
    "X05": _CONC % "readers search while documents are put through an alias",
    "X06": _CONC % "requests overlap the swap's steps",
    "S07": "seeded views (word lists, position lists, documents, several ways of handing them out, empty and long) given to each engine with seeded word "
           "lists, answers and the lists compared with a reference; distinct by view",
    "S08": "seeded result lists (few or many equal hits, extreme numbers, byte names) sorted in several ways and compared with a reference order; seeded "
           "families of similar names hashed pairwise; distinct by list",
    "R09": _REPO + "; here the dumps are parsed and compared",
    "R10": "seeded operation sequences after which documents and indices that no longer belong to the repository must have been collected (seen through "
           "weak pointers), and repeated operations that leave the repository unchanged, compared in live heap; distinct by operation log",
    "X07": _CONC % "all operations return; indices record when they are called and for whom, and goroutines left over are looked for",
    "X08": "seeded values shared by 3 to 8 goroutines that call a few of some thirty functions on them (word regions, hashing, comparing, JSON, tokenizers, "
           "filters, engines on one view, searches, dumps and listings of one index, one builder) under the race detector with injected delays, each "
           "answer compared with the one given alone; one set of values is one case, all non-trivial",
    "J01": "every Unicode code point, seeded results, and seeded equivalent renderings of documents (field order, white space, escapes, unknown and "
           "null fields), compared across all entry points and with encoding/json; distinct by value or text",
    "J02": "seeded documents cut at many places, continued, with a field of another type, mutated and random bytes, and decoded from a buffer then "
           "overwritten; distinct by input bytes",
    "J03": "seeded indices dumped to JSON and loaded again (also through encoding/json), then searched and written to on both sides; distinct by dump",
}

_BASE = ["the Go compiler, runtime and standard library", "the instrumentation only adds calls between statements (and, in the sync build, "
         "replaces sync primitives by equivalents under a scheduler)"]
ASSUMPTIONS = {
    "*": _BASE + ["the reference models written in harness/kit and harness/cmd/run"],
    "X02": _BASE + ["the race detector reports no false positives; it sees only the schedules that occurred"],
    "X08": _BASE + ["the race detector reports no false positives; it sees only the schedules that occurred"],
    "A04": _BASE + ["the race detector reports no false positives; it sees only the schedules that occurred"],
    "R10": _BASE + ["the garbage collector frees what is unreachable after three forced collections"],
    "X01": _BASE + ["porcupine's checker and the sequential model in harness/cmd/run/repo.go"],
    "C01": _BASE + ["growth beyond the largest size measured continues as before it"],
    "A05": _BASE + ["the definition of R1, R2 and RV as transcribed in harness/cmd/run/analyze.go"],
    "A02": _BASE + ["the Spanish Snowball stemmer of github.com/kljensen/snowball, called alone on one word, as the reference for stems"],
}
