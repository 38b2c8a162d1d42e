"""Which harness runs decide which property, and within which bounds."""

ASSUMPTIONS = [
    "The code is executed from clang -O2 LLVM IR of /repo's current sources for x86-64; a compiler that translates the same source differently is not covered, but every counterexample and a sample of the explored paths are replayed on g++-compiled binaries of the same sources.",
    "Header-only parts of libstdc++ 13 are executed as they are; the non-template parts (red-black tree balancing, list hooks, rehash policy, streams, error codes) and the C library are replaced by runtime/, which is trusted.",
    "Memory allocation succeeds; allocated blocks are disjoint and every access outside a live block, use after free, double free, use of an uninitialised value in a decision, or division by zero is an error.",
    "Z3 4.8.12 answers correctly; some of its answers are asked again of a newer Z3 and of cvc5 on every run.",
]
CHECKS = {}
OPTS = ("hash", "layout", "preempt", "dump", "max_steps", "harness", "covers", "budget_s", "threads", "hunt")


def R(name, bounds="", tier="quick", **kw):
    params, opts = {}, {}
    for k, v in kw.items():
        (opts if k in OPTS else params)[k] = v
    return dict(name=name, bounds=bounds, tier=tier, params=params, **opts)


T = dict(tier="thorough")
ALG = {0: "standard", 1: "transposition", 2: "merge-and-split"}
CAND = ["candidates", "no-candidate"]


STEP = "maximum distance %d; a query of any length up to 2^64, any place in it, any state that a row of the table of distances can stand for, any next letter: the next state stands for the next row"


def query_runs(alg, props, depth=2, **kw):
    """depth 2: everything; 1: the cheaper half of the quick runs"""
    P = dict(alg=alg, props=props)
    P.update(kw)
    a = ALG[alg] + ": "
    q = []
    add = lambda *x, **k: q.append(R(*x, **{**P, **k}))
    add(a + "words over ab", "dictionary: all words over {a,b} up to %d letters; query: 0-%d arbitrary bytes; any 64-bit maximum distance" % ((4, 5) if depth > 1 else (3, 4)),
        scn=0, dict=0, dlen=4 if depth > 1 else 3, qmax=5 if depth > 1 else 4, covers=CAND)
    add(a + "words over abc", "dictionary: all words over {a,b,c} up to %d letters; query: 0-%d arbitrary bytes; any maximum distance" % ((3, 4) if depth > 1 else (2, 3)),
        scn=0, dict=1, dlen=3 if depth > 1 else 2, qmax=4 if depth > 1 else 3, covers=CAND)
    for k, n, qm in ((2, "4 words without the empty one", 4), (3, "7 words with shared suffixes", 4), (4, "bytes at the edges of the signed and unsigned range", 3), (5, "empty dictionary", 3), (6, "only the empty word", 3)):
        add(a + n, "dictionary: %s; query: 0-%d arbitrary bytes; any maximum distance" % (n, qm), scn=0, dict=k, qmax=qm)
    add(a + "arbitrary term", "dictionary: one term of 0-%d arbitrary bytes; query: 0-%d arbitrary bytes; any maximum distance" % ((4, 4) if depth > 1 else (4, 3)), hash="perfect", scn=1, tmax=4, qmax=4 if depth > 1 else 3, covers=CAND)
    add(a + "two arbitrary terms", "dictionary: two terms of 0-2 arbitrary bytes; query: 0-2 arbitrary bytes; any maximum distance", hash="perfect", scn=2, tmax=2, qmax=2, covers=CAND)
    add(a + "any subset", "dictionary: any of the 128 subsets of the words over {a,b} up to 2 letters; query: 0-2 arbitrary bytes; any maximum distance", scn=4, qmax=2, covers=CAND)
    add(a + "holes", "dictionary: 6 words of 5-8 letters; query: one of them with one arbitrary byte anywhere; any maximum distance", scn=5, holes=1, covers=CAND)
    add(a + "edited twice", "dictionary: a word of %d letters and its first half; query: the word after up to 2 edits anywhere with arbitrary new bytes; maximum distance 0-3" % (10 if alg < 2 else 7), scn=3, len=10 if alg < 2 else 7, edits=2, nmax=3, alpha=2 if alg == 2 else 3)
    add(a + "long words", "dictionary: words of 300 and 150 letters; query: the long one after up to 1 edit at the ends, the middle and around 16, 32, 64, 128, 256 with an arbitrary new byte; maximum distance 0-2", scn=3, len=300, edits=1, nmax=2 if alg < 2 else 1)
    add(a + "many terms", "dictionary: about %d words of 5-9 letters; query: one of four of them after up to 1 edit anywhere; maximum distance 0-%d" % ((200, 2) if alg < 2 else (80, 2)), scn=7, count=200 if alg < 2 else 80, nmax=2)
    add(a + "large distance", "dictionary: about 60 words of 8-12 letters; query: one of four of them; maximum distance 0-6", scn=7, count=60, edits=0, nmax=6, len=10)
    add(a + "dictionary edited", "dictionary: the query after up to 1 edit (12 letters) with an arbitrary byte; maximum distance 0-2", scn=6, len=12, edits=1, nmax=2, hash="perfect")
    add(a + "short terms, long query", "dictionary: 3 words of 0-5 letters; query: 34, 66, 130 or 258 letters, one of them arbitrary; any maximum distance from 7 below that length", scn=8, far=1, lens=4)
    add(a + "match far away", "dictionary: 3 words of 2-5 letters; query: 34, 66 or 130 letters x with one of two of the words somewhere; any maximum distance from 7 below that length", scn=8, far=2, lens=4)
    add(a + "long terms, short query", "dictionary: words of 17-258 letters; query: 0-2 arbitrary bytes; any maximum distance from 7 below the length of the longest word", scn=8, far=0, lens=4)
    add(a + "common part", "dictionary: 6 letters between 0-2 and 0, 1 or 4 others (9 terms); query: the same letters after 0-%d arbitrary bytes; any maximum distance" % (2 if depth > 1 else 1), scn=9, p1=2 if depth > 1 else 1, s1=0, covers=CAND)
    if depth > 1:
        add(a + "plain strings", "as 'words over abc' with plain string results", scn=0, dict=1, dlen=2, qmax=3, strings=1)
    if props & (EXACT | DIST):
        S = dict(harness="step.cpp", props=0, split=1)
        H = lambda n: [R(a + "hunt after a failed step", "dictionary: all words over {a,b}%s up to %d letters; query: 0-%d arbitrary bytes; maximum distance %d" % (",c" * d, w, m, n),
                         scn=0, dict=d, dlen=w, qmax=m, nlo=n, nhi=n, props=props, alg=alg, budget_s=120) for d, w, m in ((0, 5, 5), (1, 4, 5), (0, 7, 7))]
        add(a + "one step anywhere, distance 1", STEP % 1, n=1, hunt=H(1), **dict(S, split=0), covers=["alive", "dead"])
        add(a + "one step anywhere, distance 2", STEP % 2, n=2, hunt=H(2), **S, covers=["alive", "dead"])
        if depth > 1:
            add(a + "one step anywhere, distance 0", STEP % 0, n=0, hunt=H(0), **S, covers=["alive", "dead"])
            add(a + "one step anywhere, distance 2, with positions that follow from others", STEP % 2, n=2, full=1, hunt=H(2), **S)
            add(a + "T one step anywhere, distance 3", STEP % 3, n=3, budget_s=900, hunt=H(3), **S, **T)
            add(a + "T one step anywhere, distance 4", STEP % 4, n=4, budget_s=1800, hunt=H(4), **S, **T)
    add(a + "T words over ab", "dictionary: all words over {a,b} up to 5 letters; query: 0-7 arbitrary bytes; any maximum distance", scn=0, dict=0, dlen=5, qmax=7, **T)
    add(a + "T arbitrary term", "dictionary: one term of 0-5 arbitrary bytes; query: 0-5 arbitrary bytes; any maximum distance", hash="perfect", scn=1, tmax=5, qmax=5, budget_s=900, **T)
    add(a + "T two arbitrary terms", "two terms and query of 0-3 arbitrary bytes; any maximum distance", hash="perfect", scn=2, tmax=3, qmax=3, budget_s=900, **T)
    add(a + "T edited three times", "word of 9 letters, up to 3 edits anywhere; maximum distance 0-4", scn=3, len=9, edits=3, nmax=4, alpha=2, budget_s=900, **T)
    add(a + "T holes", "as 'holes' with two arbitrary bytes", scn=5, holes=2, budget_s=900, **T)
    add(a + "T long words", "as 'long words' with 400 letters and 2 edits", scn=3, len=400, edits=2, nmax=2, budget_s=900, **T)
    add(a + "T many terms", "dictionary: about 600 words; maximum distance 0-3", scn=7, count=600, nmax=3, budget_s=900, **T)
    return q


OUT_Q = "Longer strings, larger dictionaries and larger edit scripts than listed per run are outside the bounds. Strings in the 'edited' and 'long' runs are one fixed pattern with symbolic edits, not arbitrary."
BQ = "Per run: see runs[].bounds. Arbitrary bytes are unconstrained 8-bit variables; the maximum distance is an unconstrained 64-bit variable unless a range is given."


def C(pid, harness, runs, bounds, outside, **kw):
    CHECKS[pid] = dict(harness=harness, runs=runs, bounds=bounds, outside=outside, **kw)


EXACT, DIST, ONCE, TYPES, MONO = 1, 2, 4, 8, 16
for i in range(3):
    C("C0%d" % (i + 1), "query.cpp", query_runs(i, EXACT), BQ, OUT_Q, thorough_budget_s=6000)


def all_query(props, **kw):
    return [r for a in range(3) for r in query_runs(a, props, depth=1, **kw)]


C("C04", "query.cpp", all_query(DIST), BQ, OUT_Q, thorough_budget_s=9000)
C("C05", "query.cpp", all_query(ONCE), BQ, OUT_Q, thorough_budget_s=9000)
C("C06", "query.cpp", all_query(TYPES), BQ, OUT_Q, thorough_budget_s=9000)


def mono_runs():
    out = []
    for a in range(3):
        n = ALG[a] + ": "
        P = dict(alg=a)
        out += [
            R(n + "one more", "dictionary: all words over {a,b} up to 3 letters; query: 0-4 arbitrary bytes; any maximum distance and the next larger one", scn=0, dict=0, dlen=3, qmax=4, props=MONO, covers=["candidates"], **P),
            R(n + "one more, abc", "dictionary: all words over {a,b,c} up to 2 letters; query: 0-3 arbitrary bytes; any maximum distance and the next", scn=0, dict=1, dlen=2, qmax=3, props=MONO, **P),
            R(n + "one more, arbitrary term", "term: 0-3 bytes; query: 0-3 bytes; any maximum distance and the next", hash="perfect", scn=1, tmax=3, qmax=3, props=MONO, **P),
            R(n + "one more, many terms", "about 80 words; query: one of four after up to 1 edit; maximum distance 0-2 and the next", scn=7, count=80 if a < 2 else 40, nmax=2, props=MONO, **P),
            R(n + "one more, long words", "word of 130 letters after up to 1 edit; maximum distance 0-2 and the next", scn=3, len=130, edits=1, nmax=2 if a < 2 else 1, props=MONO, **P),
            R(n + "zero", "maximum distance 0; dictionary: all words over {a,b} up to 4 letters; query: 0-5 arbitrary bytes", scn=0, dict=0, dlen=4, qmax=5, nlo=0, nhi=0, props=EXACT, **P),
            R(n + "zero, arbitrary term", "maximum distance 0; term and query: 0-5 arbitrary bytes", hash="perfect", scn=1, tmax=5, qmax=5, nlo=0, nhi=0, props=EXACT, **P),
            R(n + "zero, long", "maximum distance 0; word of 300 letters after up to 1 edit", scn=3, len=300, edits=1, nmax=0, props=EXACT, **P),
            R(n + "huge", "maximum distance at least 2^31; dictionary: all words over {a,b} up to 4 letters; query: 0-4 arbitrary bytes", scn=0, dict=0, dlen=4, qmax=4, nlo=2**31, nhi=2**64 - 1, props=EXACT | ONCE, **P),
            R(n + "huge, holes", "maximum distance at least 2^31; 6 words of 5-8 letters; query: one of them with an arbitrary byte", scn=5, holes=1, nlo=2**31, nhi=2**64 - 1, props=EXACT | ONCE, **P),
            R(n + "small numbers", "maximum distance 5-40; dictionary: 6 words of 5-8 letters; query: one of them with an arbitrary byte", scn=5, holes=1, nlo=5, nhi=40, props=EXACT | ONCE, **P),
            R(n + "T one more", "as 'one more' with words up to 4 letters, query up to 6 bytes", scn=0, dict=0, dlen=4, qmax=6, props=MONO, **P, **T),
            R(n + "T one more, arbitrary term", "term and query: 0-4 bytes", hash="perfect", scn=1, tmax=4, qmax=4, props=MONO, budget_s=900, **P, **T),
        ]
    return out


C("C08", "query.cpp", mono_runs(), BQ, OUT_Q, thorough_budget_s=6000)


def life(*runs):
    out = []
    for a in range(3):
        for name, bounds, kw in runs:
            kw = dict(kw)
            out.append(R(ALG[a] + ": " + name, bounds, alg=a, **kw))
    return out


C("C07", "lifecycle.cpp", life(
    ("interleaved", "dictionary: 5 words; two queries of 0-2 arbitrary bytes with maximum distances 0-2; every order of taking results from the two; the first range iterated again", dict(scn=0, dict=0, qmax=1, nmax=2, covers=["interleaved"])),
    ("interleaved, strings", "as before with 4 words and plain string results, queries of 0-1 bytes", dict(scn=0, dict=1, qmax=1, nmax=1, strings=1)),
    ("after another", "two queries of 0-2 bytes, the first abandoned after 0-3 results; the query string is overwritten after the call", dict(scn=1, dict=0, qmax=2, nmax=2, covers=["repeated"])),
    ("after another, strings", "as before, plain string results", dict(scn=1, dict=2, qmax=2, nmax=2, strings=1)),
    ("after a series", "120 fixed queries on the same transducer, then one of 0-2 bytes compared with a fresh dictionary", dict(scn=5, dict=0, qmax=2, calls=120, covers=["asked"])),
    ("after a series, 60 words", "60 words, 40 fixed queries, then one of 0-2 bytes", dict(scn=5, dict=4, qmax=2, calls=40, nmax=2)),
    ("T interleaved", "queries of 0-2 bytes", dict(scn=0, dict=0, qmax=2, nmax=2, budget_s=900, tier="thorough")),
    ("T after another", "queries of 0-3 bytes", dict(scn=1, dict=0, qmax=3, nmax=3, budget_s=900, tier="thorough")),
    ("T after a series", "1000 fixed queries before", dict(scn=5, dict=0, qmax=3, calls=1000, nmax=3, budget_s=900, tier="thorough")),
), "Queries and dictionaries as listed per run.", "More than two queries in flight at once; dictionaries larger than 60 terms.", thorough_budget_s=6000)

C("C09", "lifecycle.cpp", life(
    ("stopped anywhere", "dictionary: 5 words; query: 0-3 arbitrary bytes; any maximum distance; stopped after 0, 1, 2 or all results", dict(scn=2, dict=0, qmax=3, covers=["abandoned", "exhausted"])),
    ("stopped anywhere, strings", "dictionary: 4 words, plain string results", dict(scn=2, dict=1, qmax=3, strings=1)),
    ("stopped anywhere, suffixes", "dictionary: 3 words of 3 letters; query: 3-4 bytes", dict(scn=2, dict=2, qmin=3, qmax=4)),
    ("unused and repeated", "a result range never iterated, and one iterated twice; query: 0-2 bytes", dict(scn=3, dict=0, qmax=2)),
    ("unused and repeated, strings", "as before with plain string results", dict(scn=3, dict=1, qmax=2, strings=1)),
    ("60 words", "dictionary: 60 words; query: 0-2 bytes", dict(scn=2, dict=4, qmax=2)),
    ("T stopped anywhere", "query: 0-5 bytes", dict(scn=2, dict=0, qmax=5, budget_s=900, tier="thorough")),
), "Every load, store, free and branch of the explored paths is checked; allocations alive after a repetition must not exceed those before.", "Copies of result iterators and transducers (their classes own memory and do not define copying); allocation failure.",
  thorough_budget_s=5000)

C("C20", "lifecycle.cpp", life(
    ("two queries, one transducer", "dictionary: 4 words; two threads, each one query of 0-1 arbitrary bytes, maximum distance 0-1; every interleaving with at most 2 preemptions at shared accesses", dict(scn=4, dict=1, qmax=1, nmax=1, threads=True, covers=["joined"])),
    ("two queries, two transducers", "as before, each thread with a transducer of its own", dict(scn=4, dict=0, qmax=1, nmax=1, shared=0, threads=True)),
    ("query beside reader", "one thread queries, the other asks membership and iterates the dictionary", dict(scn=4, dict=1, qmax=1, nmax=1, reader=1, threads=True)),
    ("query beside builder", "one thread queries, the other builds, reads and frees a dictionary of its own", dict(scn=4, dict=1, qmax=1, nmax=1, reader=2, threads=True)),
    ("two readers", "both threads ask membership and iterate the same dictionary", dict(scn=4, dict=0, qmax=1, nmax=0, reader=3, threads=True)),
    ("two builders", "both threads build, read and free dictionaries of their own", dict(scn=4, dict=1, qmax=1, nmax=0, reader=4, threads=True)),
    ("first use", "nothing was queried before the threads start; plain strings", dict(scn=4, dict=2, qmax=1, nmax=1, cold=1, strings=1, threads=True)),
    ("first use, one transducer", "nothing was queried before the threads start", dict(scn=4, dict=0, qmax=1, nmax=1, cold=1, threads=True)),
    ("T two queries", "queries of 0-2 bytes, maximum distance 0-2, 3 preemptions", dict(scn=4, dict=0, qmax=2, nmax=2, preempt=3, threads=True, budget_s=900, tier="thorough")),
), "Two threads; a data race (two unordered accesses to the same bytes, one a write, not both atomic) is an error on every explored schedule.",
  "More than two threads or two preemptions (quick); weak memory orderings beyond the race check.", thorough_budget_s=5000)


def dist_runs(a):
    P = dict(alg=a, scn=0)
    return [
        R("arbitrary strings", "0-3 and 0-4 arbitrary bytes", hash="perfect", vmax=3, wmax=4, covers=["zero", "positive"], **P),
        R("arbitrary strings, exchanged", "0-4 and 0-3 arbitrary bytes", hash="perfect", vmax=4, wmax=3, **P),
        R("short and long", "0-2 and 5-6 arbitrary bytes", hash="perfect", vmax=2, wmin=5, wmax=6, **P),
        R("long and short", "5-6 and 0-2 arbitrary bytes", hash="perfect", vmin=5, vmax=6, wmax=2, **P),
        R("direct call", "both strings: 0-3 arbitrary bytes, through between()", hash="perfect", vmax=3, wmax=3, between=1, **P),
        R("colliding hashes", "both strings: 0-3 arbitrary bytes; all hash codes equal", hash="const", vmax=3, wmax=3, **P),
        R("two letters", "both strings over {a,b}, 0-6 letters", scn=2, alg=a, alpha=2, vmax=6, wmax=6),
        R("three letters", "both strings over {a,b,c}, 0-4 letters", scn=2, alg=a, alpha=3, vmax=4, wmax=4),
        R("edited", "a word of %d letters and its copy after up to 2 edits anywhere with arbitrary bytes" % (9 if a < 2 else 7), scn=1, alg=a, len=9 if a < 2 else 7, edits=2, hash="perfect"),
        R("long", "a word of 40 letters and its copy after up to 1 edit anywhere", scn=1, alg=a, len=40 if a < 2 else 24, edits=1, hash="perfect"),
        R("very long", "a word of %d letters and its copy after 1 edit at a few places" % (130 if a < 2 else 70), scn=1, alg=a, len=130 if a < 2 else 70, emin=1, edits=1, allpos=3, hash="perfect"),
        R("different lengths", "0-1 arbitrary bytes and 15-300 letters, both ways round and again on one object", scn=10, alg=a, hash="perfect", covers=["asked"]),
        R("common part", "8 fixed letters between 0-2 arbitrary bytes and nothing, against the same letters between 0-1 arbitrary bytes and 0, 3 or 6 others, both ways round", scn=11, alg=a, hash="perfect", mid=8, p1=2, p2=1, s2=2, step=3, covers=["framed"]),
        R("common part, mirrored", "as before with the arbitrary bytes at the end", scn=11, alg=a, hash="perfect", mid=8, p1=2, p2=1, s2=2, step=3, mirror=1),
        R("edited and longer", "a word of 6 different letters and its copy after up to 1 edit anywhere, an arbitrary byte or a swap, with 0-6 more letters at the beginning or end", scn=1, alg=a, len=6, edits=1, more=6, alpha=3, distinct=1, hash="perfect"),
        R("T edited and longer", "as before: 6 letters, up to 2 edits, 0-9 more letters", scn=1, alg=a, len=7, edits=2, more=9, alpha=3, distinct=1, hash="perfect", budget_s=900, **T),
        R("T common part", "8 fixed letters between 0-3 arbitrary bytes and 0-1 others, against the same between 0-1 arbitrary bytes and 0-6 others", scn=11, alg=a, hash="perfect", mid=8, p1=3, p2=1, s1=1, s2=6, budget_s=1500, **T),
        R("T arbitrary strings", "both strings: 0-4 arbitrary bytes", hash="perfect", vmax=4, wmax=4, budget_s=900, **P, **T),
        R("T 5 and 3", "5 and 0-3 arbitrary bytes", hash="perfect", vmin=5, vmax=5, wmax=3, budget_s=1500, **P, **T),
        R("T 300 letters", "a word of 300 letters and its copy after 1 edit at a few places", scn=1, alg=a, len=300, emin=1, edits=1, allpos=3, hash="perfect", max_steps=4000000000, budget_s=900, **T),
        R("T two letters", "both strings over {a,b}, 0-8 letters", scn=2, alg=a, alpha=2, vmax=8, wmax=8, budget_s=900, **T),
        R("T edited", "10 letters, up to 3 edits", scn=1, alg=a, len=10, edits=3, hash="perfect", budget_s=1500, **T),
    ]


OUT_D = "Longer arbitrary strings; hash collisions other than 'none' and 'all'."
for i in range(3):
    C("C1%d" % i, "distance.cpp", dist_runs(i), "String lengths as listed per run; characters are unconstrained bytes unless an alphabet is named.", OUT_D, thorough_budget_s=5000)


def each(fn):
    return [r for a in range(3) for r in fn(a, ALG[a] + ": ")]


C("C13", "distance.cpp", each(lambda a, n: [
    R(n + "pairs", "two strings of 0-3 arbitrary bytes", hash="perfect", alg=a, scn=3, vmax=3, triangle=0, covers=["pair"]),
    R(n + "pairs, uneven", "two strings over {a,b} of 0-5 letters", alg=a, scn=3, vmax=5, alpha=2, triangle=0),
    R(n + "triples", "two strings of 0-2 and one of 0-3 arbitrary bytes", hash="perfect", alg=a, scn=3, vmax=2, cmax=3, covers=["triple"]),
    R(n + "triples over ab", "three strings over {a,b} of 0-3 letters", alg=a, scn=3, vmax=3, alpha=2),
    R(n + "swapped pair", "the triples xy, yx, yzx for arbitrary bytes x, y, z", hash="perfect", alg=a, scn=9),
    R(n + "different lengths", "0-1 arbitrary bytes and 15-300 letters, both ways round and again on one object", scn=10, alg=a, hash="perfect", covers=["asked"]),
    R(n + "T pairs", "two strings of 0-4 arbitrary bytes", hash="perfect", alg=a, scn=3, vmax=4, triangle=0, budget_s=900, **T),
    R(n + "T triples", "three strings of 0-3 arbitrary bytes", hash="perfect", alg=a, scn=3, vmax=3, budget_s=1200, **T),
]), "String lengths as listed per run.", OUT_D, thorough_budget_s=6000)

C("C14", "distance.cpp", each(lambda a, n: [
    R(n + "earlier calls", "three calls with strings of 0-2 arbitrary bytes on one object, the first repeated and reversed", hash="perfect", alg=a, scn=4, vmax=2 if a == 0 else 2, calls=1, covers=["asked"]),
    R(n + "two earlier calls", "three calls with strings of 0-1 arbitrary bytes", hash="perfect", alg=a, scn=4, vmax=1, calls=2),
    R(n + "colliding hashes", "two calls with strings of 0-2 bytes, all hash codes equal", hash="const", alg=a, scn=4, vmax=2, calls=1),
    R(n + "real hashes", "60 calls on parts of a word over {a,b}, then any pair over {a,b} up to 4 letters", alg=a, scn=5, vmax=4, len=8, covers=["asked"]),
    R(n + "colliding hashes after a series", "as before with all hash codes equal, pairs up to 3 letters", hash="const", alg=a, scn=5, vmax=3, len=5),
    R(n + "long series", "1600 calls before a pair over {a,b} up to 2 letters", alg=a, scn=5, vmax=2, len=40),
    R(n + "different lengths", "0-1 arbitrary bytes and 15-300 letters, both ways round and again on one object", scn=10, alg=a, hash="perfect", covers=["asked"]),
    R(n + "long keys", "words of 20 letters that differ in one arbitrary byte anywhere", alg=a, scn=8, len=20 if a < 2 else 12, hash="perfect"),
    R(n + "other objects", "an object of each kind asked for the same pair of 0-2 arbitrary bytes, in two orders", alg=a, scn=12, vmax=2, hash="perfect", covers=["asked"]),
    R(n + "T earlier calls", "two calls with strings of 0-3 bytes", hash="perfect", alg=a, scn=4, vmax=3, calls=1, budget_s=900, **T),
    R(n + "T long keys", "words of 60 letters", alg=a, scn=8, len=60, hash="perfect", budget_s=900, **T),
]), "Histories of the listed length.", OUT_D + " Histories longer than listed.", thorough_budget_s=5000)

C("C15", "distance.cpp", each(lambda a, n: [
    R(n + "two threads", "two threads, one call each, strings of 0-1 arbitrary bytes; every interleaving with at most 2 preemptions at shared accesses", hash="perfect", alg=a, scn=6, vmax=1, threads=True, covers=["joined"]),
    R(n + "two letters", "two threads, one call each, strings over {a,b} of 1-2 letters", alg=a, scn=6, vmin=1, vmax=2, alpha=2, threads=True),
    R(n + "two calls", "two threads, two calls each, strings over {a,b} of 0-1 letters", alg=a, scn=6, vmax=1, calls=2, alpha=2, threads=True, preempt=1),
    R(n + "an object each", "two threads, each with an object of its own, strings of 0-1 arbitrary bytes", hash="perfect", alg=a, scn=6, vmax=1, threads=True, apart=1),
    R(n + "warm", "as 'two threads' after a first call", hash="perfect", alg=a, scn=6, vmax=1, warm=1, threads=True),
    R(n + "T three threads", "three threads, one call each over {a,b}, 1 letter", alg=a, scn=6, vmin=1, vmax=1, calls=1, alpha=2, **{"threads": True}, budget_s=900, **T),
    R(n + "T 3 preemptions", "two threads, strings of 0-1 bytes, 3 preemptions", hash="perfect", alg=a, scn=6, vmax=1, threads=True, preempt=3, budget_s=900, **T),
]), "Two threads, schedules with the listed number of preemptions; a data race is an error.", "More threads or preemptions; weak memory orderings beyond the race check.", thorough_budget_s=5000)


def dawg_runs(scn, *extra, **kw):
    P = dict(scn=scn)
    P.update(kw)
    return [
        R("any subset", "dictionary: any of the 128 subsets of the words over {a,b} up to 2 letters", dict=0, dlen=2, **P),
        R("arbitrary terms", "dictionary: 0-2 terms of 0-2 arbitrary bytes", hash="perfect", dict=1, **P),
        R("arbitrary terms, colliding hashes", "dictionary: 0-2 terms of 0-2 arbitrary bytes, all hash codes equal", hash="const", dict=1, **P),
        R("shared suffixes", "dictionary: any of the 512 subsets of 9 words that share prefixes and suffixes", dict=2, **P),
        R("edge bytes", "dictionary: any of the 2048 subsets of 11 words of bytes 0x00, 0x01, 0x7f, 0x80, 0xff", dict=3, **P),
        R("long words", "dictionary: up to 8 words of 40 letters", dict=4, **P),
        R("suffix families", "dictionary: any subset of the words x+'ab', x over {a,b,c} up to 1 letter", dict=6, **P),
        R("many words", "dictionary: about 260 of 300 words of 5-9 letters, one of 8 selections", dict=7, **P),
    ] + list(extra)


C("C16", "dawg.cpp", [
    R("any subset", "dictionary: any of the 128 subsets of the words over {a,b} up to 2 letters; probe: 0-3 arbitrary bytes", scn=0, dict=0, dlen=2, pmax=3, covers=["in", "out"]),
    R("any subset, list", "as before, built from a list", scn=0, dict=0, dlen=2, pmax=2, **{"from": 1}),
    R("any subset, set", "as before, built from a set", scn=0, dict=0, dlen=2, pmax=2, **{"from": 2}),
    R("arbitrary terms", "dictionary: 0-2 terms of 0-2 arbitrary bytes; probe: 0-2 arbitrary bytes", hash="perfect", scn=0, dict=1, pmax=2),
    R("colliding hashes", "as before, all hash codes equal", hash="const", scn=0, dict=1, pmax=2),
    R("shared suffixes", "any of 512 subsets of 9 words; probe: a word cut, extended by or replaced in one place by an arbitrary byte", scn=0, dict=2, probe=1),
    R("edge bytes", "any of 2048 subsets of 11 words of edge bytes; probe: a byte", scn=0, dict=3, pmax=1),
    R("long words", "up to 8 words of 40 letters; probe: near a word", scn=0, dict=4, probe=1),
    R("wide node", "a node with 20, 130 or 256 outgoing edges; probe: 0-2 arbitrary bytes", scn=0, dict=5, pmax=2),
    R("colliding hashes, subsets", "any of the 128 subsets, all hash codes equal; probe: 0-3 bytes", hash="const", scn=0, dict=0, pmax=3),
    R("many words", "about 260 words; probe: near one of them", scn=0, dict=7, probe=1, count=100),
    R("very long words", "up to 2 words of 300 letters; probe: near a word", scn=0, dict=4, fam=1, len=300, probe=2),
    R("T three arbitrary terms", "0-3 terms of 0-2 bytes", hash="perfect", scn=0, dict=1, terms=3, pmax=2, budget_s=1200, **T),
    R("T any subset", "any of the 32768 subsets of the words over {a,b} up to 3 letters; probe: 0-4 bytes", scn=0, dict=0, dlen=3, pmax=4, budget_s=1500, **T),
], "Dictionaries and probes as listed per run.", "Longer terms and larger dictionaries.", thorough_budget_s=4000)

C("C17", "dawg.cpp", dawg_runs(1,
    R("repeated terms", "any subset of the words over {a,b} up to 2 letters, each given once or twice", scn=6, dict=0, dlen=2, covers=["done"]),
    R("repeated terms, arbitrary", "0-2 arbitrary terms of 0-2 bytes, each once or twice", hash="perfect", scn=6, dict=1),
    R("repeated terms, suffixes", "any subset of 9 words, each once or twice", scn=6, dict=2),
    R("one by one", "three terms of 0-1 arbitrary bytes through add(), some refused", hash="perfect", scn=7, terms=3, tmax=1, remove=1),
    R("wide node", "a node with 20, 130 or 256 outgoing edges", scn=1, dict=5),
    R("T any subset", "any of the 32768 subsets of the words over {a,b} up to 3 letters", scn=1, dict=0, dlen=3, budget_s=900, **T),
    R("T arbitrary", "0-3 terms of 0-2 bytes", hash="perfect", scn=1, dict=1, terms=3, budget_s=900, **T),
    R("T repeated terms, edge bytes", "any subset of 11 words, each once or twice", scn=6, dict=3, budget_s=900, **T),
), "Dictionaries as listed per run.", "Longer terms and larger dictionaries.", thorough_budget_s=4000)

C("C18", "dawg.cpp", [
    R("any sequence", "0-4 terms of 0-2 arbitrary bytes in any order", hash="perfect", scn=2, terms=4, tmax=2, covers=["accepted", "rejected"]),
    R("two longer terms", "0-2 terms of 0-4 arbitrary bytes in any order", hash="perfect", scn=2, terms=2, tmax=4),
    R("any sequence, list", "0-3 terms of 0-1 arbitrary bytes from a list", hash="perfect", scn=2, terms=3, tmax=1, **{"from": 1}),
    R("one by one", "three terms of 0-1 arbitrary bytes through add(), going on after a refusal", hash="perfect", scn=7, terms=3, tmax=1, covers=["done"]),
    R("one by one, longer", "two terms of 0-3 arbitrary bytes through add()", hash="perfect", scn=7, terms=2, tmax=3),
    R("colliding hashes", "0-2 terms of 0-2 bytes, all hash codes equal", hash="const", scn=2, terms=2, tmax=2),
    R("after many", "about 260 sorted words and one more term of 0-2 bytes out of 00, a, b, c, d, 7f, ff at the end", hash="real", scn=8, dict=7),
    R("T five terms", "0-5 terms of 0-2 bytes", hash="perfect", scn=2, terms=5, tmax=2, budget_s=900, **T),
    R("T three longer terms", "0-3 terms of 0-3 bytes", hash="perfect", scn=2, terms=3, tmax=3, budget_s=900, **T),
], "Sequences as listed per run; the order is bytewise, unsigned.", "Longer sequences and terms.", thorough_budget_s=2500)

C("C19", "dawg.cpp", dawg_runs(3,
    R("words over ab", "any of the 128 subsets with all hash codes equal", hash="const", scn=3, dict=0, dlen=2),
    R("T any subset", "any of the 32768 subsets of the words over {a,b} up to 3 letters", scn=3, dict=0, dlen=3, budget_s=900, **T),
    R("T arbitrary", "0-3 terms of 0-2 bytes", hash="perfect", scn=3, dict=1, terms=3, budget_s=900, **T),
), "Dictionaries as listed per run.", "Longer terms and larger dictionaries.", thorough_budget_s=4000)

C("C21", "dawg.cpp", [
    R("any sequence", "0-3 terms of 0-1 arbitrary bytes in any order (accepted or rejected), kept or abandoned before finish; membership, iteration to the end or stopped", hash="perfect", scn=5, terms=3, tmax=1, covers=["accepted", "rejected"]),
    R("two longer terms", "0-2 terms of 0-3 arbitrary bytes in any order", hash="perfect", scn=5, terms=2, tmax=3),
    R("shared suffixes", "any of 512 subsets of 9 words", scn=5, any=0, terms=0, dict=2),
    R("any subset", "any of 128 subsets of the words over {a,b} up to 2 letters", scn=5, any=0, terms=0, dict=0),
    R("colliding hashes", "0-2 terms of 0-2 bytes, all hash codes equal", hash="const", scn=5, terms=2, tmax=2),
    R("long words", "up to 8 words of 40 letters", scn=5, any=0, terms=0, dict=4),
    R("many words", "about 260 words", scn=5, any=0, terms=0, dict=7),
    R("T any sequence", "0-3 terms of 0-2 bytes", hash="perfect", scn=5, terms=3, tmax=2, budget_s=900, **T),
    R("T any subset", "any of the 32768 subsets of words over {a,b} up to 3 letters", scn=5, any=0, terms=0, dict=0, dlen=3, pmax=0, budget_s=900, **T),
], "Every load, store, free and branch of the explored paths is checked; allocations alive after a repetition must not exceed those before.", "Allocation failure; add() after finish(); two dictionaries sharing nodes.", thorough_budget_s=3000)

C("C22", "dawg.cpp", [
    R("any two subsets", "two dictionaries, each any of the 8 subsets of the words over {a,b} up to 1 letter", scn=4, dict=0, dlen=1, covers=["equal", "different"]),
    R("any two subsets, 2 letters", "two dictionaries, each any of the 128 subsets of the words over {a,b} up to 2 letters", scn=4, dict=0, dlen=2),
    R("arbitrary terms", "two dictionaries of 0-2 terms of 0-1 arbitrary bytes", hash="perfect", scn=4, dict=1, tmax=1),
    R("one arbitrary term", "two dictionaries of 0-1 terms of 0-4 arbitrary bytes", hash="perfect", scn=4, dict=1, terms=1, tmax=4),
    R("suffix families", "two dictionaries, each any of 16 subsets of the words x+'ab'", scn=4, dict=6),
    R("many words", "two of 8 selections of about 260 words", scn=4, dict=7, count=100),
    R("long words", "any of 16 sets of up to 8 words of 40 letters, and the same or all but one of its terms", scn=4, dict=4, near=1),
    R("shared suffixes", "any of 512 subsets of 9 words, and the same or all but one of its terms", scn=4, dict=2, near=1),
    R("edge bytes", "any of 2048 subsets of 11 words of edge bytes, and the same or all but one of its terms", scn=4, dict=3, near=1),
    R("colliding hashes", "as 'any two subsets', all hash codes equal", hash="const", scn=4, dict=0, dlen=1),
    R("T arbitrary terms", "0-2 terms of 0-2 bytes each", hash="perfect", scn=4, dict=1, tmax=2, budget_s=1500, **T),
], "Pairs of dictionaries as listed per run.", "Longer terms and larger dictionaries.", thorough_budget_s=2500)

SER = ["libprotobuf and the code protoc generates are replaced in the symbolic run by a stand-in with the proto3 wire format generated from proto/liblevenshtein.proto; counterexamples and sampled paths are replayed with the real protobuf library.",
       "File streams are replaced by an in-memory file system with the buffering of std::filebuf; a full disk stores what fits and fails the write; replays use real files and RLIMIT_FSIZE."]
C("C23", "serial.cpp", [
    R("stream", "any of the 128 subsets of the words over {a,b} up to 2 letters, saved to and loaded from a stream twice; membership of and a query for 0-1 arbitrary bytes on both", scn=0, covers=["empty", "terms"]),
    R("stream, arbitrary terms", "0-2 terms of 0-2 arbitrary bytes", hash="perfect", scn=0, dict=1, ask=0),
    R("stream, edge bytes", "any of 512 subsets of 9 words with shared suffixes and edge bytes", scn=0, dict=2, ask=0),
    R("stream, descending addresses", "as before, each allocation at a lower address than the one before", layout=1, scn=0, dict=2, ask=0),
    R("stream, scattered addresses", "as before, allocations at scattered addresses", layout=2, scn=0, dict=2, ask=0),
    R("stream, every byte", "a node with an edge for each of the 256 bytes", scn=0, dict=3, ask=0),
    R("message", "as 'stream' through to_protobuf and from_protobuf; the two loaded dictionaries and the original are independent", scn=1),
    R("file", "any of 16 subsets of the words over {a,b} up to 1 letter; each kind of path for saving and loading; over no file, longer garbage or a larger dictionary", scn=2, dict=0, dlen=1, covers=["done"]),
    R("file, edge bytes", "as before with any of 512 subsets of 9 words", scn=2, dict=2, ask=0),
    R("file names", "any of 2 dictionaries; names without or with long extensions, spaces, bytes outside of ASCII, leading and trailing dots", scn=2, dict=0, dlen=0, names=5, ask=0),
    R("large file", "156 words, several output buffers", scn=2, dict=4, ask=0),
    R("memory", "any of 128 subsets, loaded completely, cut to eighths or by path; no allocation left", scn=3, covers=["done"]),
    R("memory, arbitrary terms", "0-2 terms of 0-2 bytes", hash="perfect", scn=3, dict=1),
    R("T stream", "any of the 32768 subsets of the words over {a,b} up to 3 letters", scn=0, dlen=3, ask=0, budget_s=900, **T),
    R("T stream, arbitrary terms", "0-3 terms of 0-2 bytes", hash="perfect", scn=0, dict=1, terms=3, ask=0, budget_s=900, **T),
], "Dictionaries as listed per run.", "Other serialisation formats (the library has none); dictionaries larger than listed.", serial=True, assumptions=SER, thorough_budget_s=3000)
C("C24", "serial.cpp", [
    R("truncated", "any of the 128 subsets of the words over {a,b} up to 2 letters, cut after any number of bytes", scn=4, covers=["refused"]),
    R("truncated file", "as before with words up to 1 letter, through each kind of path", scn=4, file=1, dlen=1),
    R("truncated, arbitrary term", "one arbitrary term of 0-2 bytes, cut anywhere", hash="perfect", scn=4, dict=1, tmin=1, terms=1),
    R("nothing there", "missing file, missing directory, a directory, no name, empty file, empty or failed stream", scn=5, covers=["done"]),
    R("any message", "a message with up to 2 nodes, 1 final node, 2 edges; all ids, labels, the root and the size arbitrary", scn=6, covers=["refused", "loaded"]),
    R("three nodes", "up to 3 nodes, 1 final node, 1 edge, all arbitrary", scn=6, nodes=3, edges=1),
    R("one byte changed", "a valid file, one arbitrary byte anywhere", scn=7, covers=["refused", "loaded"]),
    R("one byte changed, then cut", "as before, then cut anywhere", scn=7, cut=1),
    R("any bytes", "0-5 arbitrary bytes", scn=8, bytes=5),
    R("many terms", "a message of 41 nodes, two edges from each to the next (2^40 terms); any size", scn=12, depth=40, max_steps=50000000, covers=["refused", "loaded"]),
    R("too many terms", "a message of 65 nodes, two edges from each to the next (2^64 terms); any size", scn=12, depth=64, max_steps=50000000, covers=["refused"]),
    R("no terms", "a message of 41 nodes, none final, two edges from each to the next; any size", scn=12, depth=40, dead=1, max_steps=50000000, covers=["refused", "loaded"]),
    R("one long term", "a message of 20001 nodes in a row; any size", scn=13, depth=20000, max_steps=2000000000, covers=["done"]),
    R("T any message", "up to 3 nodes, 2 final nodes, 2 edges", scn=6, nodes=3, finals=2, edges=2, budget_s=1800, **T),
    R("T two bytes changed", "two arbitrary bytes anywhere", scn=7, bytes=2, **T),
    R("T truncated", "any of 512 subsets of 9 words, cut anywhere", scn=4, dict=2, budget_s=600, **T),
    R("T any bytes", "0-9 arbitrary bytes", scn=8, bytes=9, budget_s=900, **T),
], "Files as listed per run.", "Corruptions of more than two bytes; messages larger than listed.", serial=True, assumptions=SER, thorough_budget_s=4000)
C("C25", "serial.cpp", [
    R("full disk", "any of 128 subsets of the words over {a,b} up to 2 letters; room for any number of bytes from 0 to all of them; each kind of path", scn=9, covers=["saved", "failed"]),
    R("full disk, large", "156 words, several output buffers; room around buffer boundaries and the end", scn=9, dict=4, allroom=0, covers=["saved", "failed"]),
    R("failing stream", "any of 128 subsets; a stream that accepts any number of bytes, or is already in a failed state", scn=10, covers=["saved", "failed"]),
    R("no such directory", "a path that cannot be opened: in a missing folder, a folder itself, empty; each kind of path", scn=11, covers=["done"]),
    R("T full disk", "any of 512 subsets of 9 words", scn=9, dict=2, budget_s=900, **T),
    R("T failing stream", "any of 512 subsets of 9 words", scn=10, dict=2, budget_s=900, **T),
], "Dictionaries as listed per run.", "Crashes of the machine after a successful save.", serial=True, assumptions=SER, thorough_budget_s=2500)

ND = "graph of up to %d nodes given by hand, edges for up to %d letters, any nodes final: minimal or not, with shared nodes and dead ends; every such graph"
C("C26", "graph.cpp", [
    R("membership and iteration", ND % (4, 2) + "; probe: 0-2 arbitrary bytes", scn=0, nodes=4, letters=2, covers=["words", "empty"]),
    R("membership and iteration, edge bytes", ND % (3, 3) + " of the bytes 0x00, 0x80, 0xff; probe: 0-2 arbitrary bytes", scn=0, nodes=3, letters=3, labels=1),
    R("membership and iteration, edges given at once", ND % (4, 2) + "; probe: 0-1 arbitrary bytes", scn=0, nodes=4, letters=2, how=1, pmax=1),
] + [R(ALG[a] + ": queries", ND % (4, 2) + "; query: 0-2 arbitrary bytes; any 64-bit maximum distance", scn=1, alg=a, nodes=4, letters=2, qmax=2, covers=["queried"]) for a in range(3)] + [
    R(ALG[a] + ": queries, edge bytes", ND % (3, 3) + " of the bytes 0x00, 0x80, 0xff; query: 0-2 arbitrary bytes; any 64-bit maximum distance", scn=1, alg=a, nodes=3, letters=3, labels=1, qmax=2) for a in range(3)] + [
    R("equality with a built dictionary", ND % (4, 2) + " without dead ends, and the dictionary built from its words", scn=2, built=1, nodes=4, letters=2),
    R("equality", "any two such graphs without dead ends: " + ND % (3, 2), scn=2, nodes=3, letters=2, covers=["equal", "different"]),
    R("edge replaced", "three edges with arbitrary letters, one perhaps replacing another", scn=3, covers=["replaced", "added"]),
    R("many ways", "41 nodes, two edges from each to the next; probe: a term with one arbitrary byte", scn=4, depth=40, max_steps=50000000, covers=["freed"]),
] + [R(ALG[a] + ": long word", "a graph of 1000 letters that spells a word and its first half; query: the word with one edit (any letter) at the beginning, middle or end", scn=5, alg=a, depth=1000, max_steps=50000000, covers=["asked"]) for a in range(3)] + [
    R("T membership and iteration", ND % (5, 2) + "; probe: 0-3 bytes", scn=0, nodes=5, letters=2, pmax=3, budget_s=900, **T),
] + [R("T " + ALG[a] + ": long word", "as above, 2500 letters", scn=5, alg=a, depth=2500, max_steps=500000000, **T) for a in range(3)] + [R("T " + ALG[a] + ": queries", ND % (4, 3) + "; query: 0-3 bytes; any maximum distance", scn=1, alg=a, nodes=4, letters=3, qmax=3, budget_s=900, **T) for a in range(3)] + [
    R("T equality with a built dictionary", ND % (5, 2) + " without dead ends, and the dictionary built from its words", scn=2, built=1, nodes=5, letters=2, budget_s=900, **T),
], "Graphs as listed per run; the size given to the constructor is the number of words.", "Larger graphs; a size that does not match the graph; graphs whose nodes are freed elsewhere.", thorough_budget_s=4000)

C("C27", "serial.cpp", [
    R("written", "any of the 128 subsets of the words over {a,b} up to 2 letters, saved to a stream or a file, read by a decoder of our own", scn=14, to=1, covers=["empty", "terms"]),
    R("written, edge bytes", "any of 512 subsets of 9 words with shared suffixes and edge bytes", scn=14, dict=2),
    R("written, descending addresses", "as before, each allocation at a lower address than the one before", scn=14, dict=2, layout=1),
    R("written, scattered addresses", "as before, allocations at scattered addresses", scn=14, dict=2, layout=2),
    R("written, arbitrary terms", "0-2 terms of 0-1 arbitrary bytes", scn=14, dict=1, tmax=1, hash="perfect"),
    R("written, large", "156 words, several output buffers", scn=14, dict=4, to=1),
    R("foreign", "any graph of 3 nodes and letters 'a', 0xff; 6 kinds of ids (descending, equal in one half, near 2^64, 0 ...), labels with and without sign extension; 6 encodings (orders of fields, parts and elements, packed, unpacked and mixed lists, zeros written or not, unknown fields)", scn=15, ids=5, covers=["loaded"]),
    R("foreign, any ids", "any graph of 3 nodes, two arbitrary 32-bit labels with different low bytes, arbitrary distinct 64-bit ids; probe: 0-2 bytes", scn=17, covers=["loaded"]),
    R("foreign, three letters", "any graph of 2 nodes and letters 'a', 0xff, 0x00", scn=15, nodes=2, letters=3, ids=5),
    R("T foreign", "any graph of 4 nodes", scn=15, nodes=4, ids=5, budget_s=900, **T),
    R("T foreign, any ids", "any graph of 4 nodes", scn=17, nodes=4, budget_s=900, **T),
    R("T written", "any of the 32768 subsets of the words over {a,b} up to 3 letters", scn=14, dlen=3, budget_s=900, **T),
], "Dictionaries, graphs and encodings as listed per run; the expected format is written down in the harness, not taken from /repo.", "Encodings not listed (e.g. overlong varints, a message split and merged, a field repeated).", serial=True, assumptions=SER, thorough_budget_s=3000)
C("C28", "serial.cpp", [
    R("one dictionary", "two threads on a dictionary of 4 words: both save it, both load it, one saves and one loads, one queries beside saving or loading; every interleaving with at most 2 preemptions at shared accesses", scn=16, threads=True, covers=["joined"]),
    R("two dictionaries", "as before, a dictionary for each thread", scn=16, apart=1, threads=True),
    R("T one dictionary", "4 preemptions", scn=16, threads=True, preempt=4, budget_s=600, **T),
    R("T two dictionaries", "4 preemptions", scn=16, apart=1, threads=True, preempt=4, budget_s=600, **T),
], "Two threads; a data race (two unordered accesses to the same bytes, one a write, not both atomic) is an error on every explored schedule.", "More threads; threads that write to the same file; races inside of libprotobuf.", serial=True, assumptions=SER, thorough_budget_s=1500)
C("C29", "state.cpp", [R(ALG[a] + ": " + n, b, scn=k, alg=a, covers=[c]) for a in range(3) for n, b, k, c in (
    ("sorting", "0-4 positions with arbitrary 64-bit index and errors", 0, "sorted"),
    ("merging", "twice 0-2 positions with arbitrary 64-bit index and errors", 2, "merged"),
    ("order", "three positions with arbitrary 64-bit index and errors", 3, "compared"))] + [
    R("editing", "a state made in any way, then up to 4 additions, insertions or removals anywhere, also while iterating", scn=1, covers=["edited"]),
] + [R("T " + ALG[a] + ": sorting", "0-5 positions", scn=0, alg=a, count=5, budget_s=900, **T) for a in range(3)] + [
    R("T " + ALG[a] + ": merging", "twice 0-3 positions", scn=2, alg=a, count=3, budget_s=900, **T) for a in range(3)] + [
    R("T editing", "up to 5 operations", scn=1, ops=5, budget_s=900, **T),
], "Numbers of positions and operations as listed per run.", "Inserting through an iterator right after a removal through it; positions in two states; what unsubsume removes (see DESIGN.md).", thorough_budget_s=5000)
