#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json (run by hand after editing this file)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = ["src/liblevenshtein/transducer/transducer.cpp", "src/liblevenshtein/transducer/lazy_query.cpp", "src/liblevenshtein/transducer/state_transition.cpp",
      "src/liblevenshtein/transducer/position_transition.cpp", "src/liblevenshtein/transducer/merge.cpp", "src/liblevenshtein/transducer/unsubsume.cpp",
      "src/liblevenshtein/transducer/subsumes.cpp", "src/liblevenshtein/transducer/distance.cpp", "src/liblevenshtein/transducer/state.cpp"]
DW = ["src/liblevenshtein/collection/sorted_dawg.cpp", "src/liblevenshtein/collection/dawg.cpp", "src/liblevenshtein/collection/dawg_node.cpp"]
IT = ["src/liblevenshtein/collection/dawg_iterator.cpp", "src/liblevenshtein/collection/prefix.cpp"]
DI = ["src/liblevenshtein/distance/memoized_distance.cpp", "src/liblevenshtein/distance/symmetric_pair.cpp", "src/liblevenshtein/distance/distance.cpp"]
SE = ["src/liblevenshtein/serialization/serializer.cpp", "proto/liblevenshtein.proto"]


def m(*xs):
    return [dict(name=a, where=b) for a, b in xs]


P = []


def prop(pid, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, observe_at=observe, hook_needed=None)))


def query_prop(pid, name, dist):
    prop(pid, "%s queries return exactly the terms within the maximum distance" % name,
         "For every dictionary, query string and maximum distance, a query with the %s algorithm yields a term if and only if it is in the dictionary and its %s from the query is at most the maximum distance. This holds for terms and queries of any bytes and any length, including empty ones, and for both result types." % (name, dist),
         ["inputs"], "all dictionaries, query strings and maximum distances",
         "The tests compare a few dozen queries over small fixed dictionaries with the distance functions; missing or spurious candidates appear only for particular character patterns, lengths and distances.",
         TR, m(("per-position elementary transitions", "position_transition.cpp"), ("merging and subsumption of positions", "merge.cpp, subsumes.cpp, unsubsume.cpp"), ("lazy walk over the word graph", "lazy_query.cpp: advance")),
         ["Transducer::operator()", "LazyQuery iteration"])


query_prop("C01", "STANDARD", "Levenshtein distance (insertions, deletions, substitutions)")
query_prop("C02", "TRANSPOSITION", "Levenshtein distance extended with swaps of adjacent characters (no substring edited twice)")
query_prop("C03", "MERGE_AND_SPLIT", "Levenshtein distance extended with merging two characters into one and splitting one into two")
prop("C04", "The distance reported with a candidate is its exact edit distance",
     "Whenever a query reports a candidate together with a distance, that number is exactly the edit distance between query and candidate under the chosen algorithm, for every dictionary, query and maximum distance.",
     ["inputs"], "all dictionaries, queries, maximum distances and algorithms", "Tests sample few queries; a reported distance can be wrong only for particular alignments.",
     TR, m(("distance of a final state", "transducer/distance.cpp"), ("result assembly", "lazy_query.cpp: update_candidate")), ["Candidate::second"])
prop("C05", "Every candidate is yielded once and every query ends",
     "Iterating a query yields no term twice, reaches its end after finitely many steps, and once at its end stays there however often it is advanced, for every dictionary, query and maximum distance.",
     ["inputs", "histories"], "all dictionaries, queries, maximum distances, algorithms", "Tests stop at the end of a handful of queries and put the results into sets, which hides repetition.",
     TR[:2] + DW, m(("pending queue and completion flag", "lazy_query.cpp: advance"), ("deterministic word graph", "dawg_node.cpp: add_edge")), ["LazyQuery::operator++", "LazyQuery::operator=="])
prop("C06", "Plain and with-distance queries find the same terms",
     "For every dictionary, query, maximum distance and algorithm, the query that yields plain strings and the query that yields strings with distances find the same terms.",
     ["inputs", "configurations"], "all inputs, both result types", "Tests exercise the two result types on separate small samples.",
     TR[:2], m(("result type specialisations", "lazy_query.cpp: update_candidate")), ["Transducer<A, std::string>", "Transducer<A, Candidate>"])
prop("C07", "Queries do not influence one another",
     "The result of a query depends only on the dictionary, the query string and the maximum distance: not on other queries in progress on the same transducer or dictionary, on queries made or abandoned before, or on what happens to the caller's string afterwards. Iterating the same result range again yields the same results, and querying leaves the dictionary unchanged.",
     ["histories", "inputs"], "all interleavings and sequences of queries", "Tests run queries one after another to their end.",
     TR[:3], m(("state owned per query", "lazy_query.h"), ("cached automaton pieces", "transducer.cpp")), ["Transducer::operator()"])
prop("C08", "The maximum distance bounds results from zero to the largest integer",
     "With maximum distance 0 a query finds exactly the query string itself, if it is in the dictionary; with a huge maximum distance, up to the largest 64-bit value, it finds every term exactly once. Raising the maximum distance by one never loses a candidate or changes a reported distance.",
     ["inputs"], "all maximum distances, queries and dictionaries", "Tests use maximum distances 0 to about 4; overflow and truncation show only at extreme values.",
     TR, m(("error budget comparisons", "position_transition.cpp, state_transition.cpp")), ["Transducer::operator()"])
prop("C09", "Queries are memory-safe and release all memory",
     "Creating, iterating, stopping at any point and destroying queries, result ranges and transducers never accesses invalid memory, never uses uninitialised values and releases everything that was allocated, for every dictionary, query and maximum distance.",
     ["inputs", "histories"], "all inputs and stopping points", "Tests run without a leak check on the stopping points of a query.",
     TR[:2] + ["src/liblevenshtein/transducer/intersection.cpp", "src/liblevenshtein/transducer/state.cpp", "src/liblevenshtein/transducer/position.cpp"],
     m(("ownership of intersections, states and positions", "lazy_query.cpp: ~LazyQuery; intersection.cpp; state.cpp")), ["destructors"])


def dist_prop(pid, cls, dist, f):
    prop(pid, "%s computes the exact distance" % cls,
         "For every pair of byte strings, the %s object returns exactly the %s, whatever the lengths and bytes." % (cls, dist),
         ["inputs"], "all pairs of strings", "Tests use a few known pairs; errors appear only for particular alignments, repeated characters or long strings.",
         ["src/liblevenshtein/distance/%s.cpp" % f] + DI, m(("memoised recurrence", "distance/%s.cpp: between" % f)), ["Distance::operator()"])


dist_prop("C10", "StandardDistance", "Levenshtein distance (insertions, deletions, substitutions)", "standard_distance")
dist_prop("C11", "TranspositionDistance", "Levenshtein distance extended with swaps of adjacent characters (no substring edited twice)", "transposition_distance")
dist_prop("C12", "MergeAndSplitDistance", "Levenshtein distance extended with merging two characters into one and splitting one into two", "merge_and_split_distance")
prop("C13", "The distance functions behave as metrics",
     "For all strings, each distance function is symmetric, is 0 exactly for equal strings and never exceeds the length of the longer string; the standard and transposition distances are at least the difference in length. The triangle inequality holds too, except where the transposition distance, which edits no substring twice, inherently breaks it (as for xy, yx, yzx; a recorded finding).",
     ["inputs"], "all pairs and triples of strings", "The property-based tests sample random strings; violations need particular triples.",
     ["src/liblevenshtein/distance/distance.h"] + DI, m(("symmetric memo key", "symmetric_pair.cpp"), ("recurrences", "distance/*_distance.cpp")), ["Distance::operator()"])
prop("C14", "A distance does not depend on earlier calls",
     "However many and whichever distances an object computed before, and even if hash codes collide, its next answer is the same as that of a fresh object; asking again, or with the strings exchanged, gives the same number. Other distance objects, of the same or another kind, do not influence it.",
     ["histories", "inputs"], "all sequences of calls", "Tests use few calls per object and never force hash collisions in the memo.",
     DI, m(("memo keyed by unordered pair", "memoized_distance.cpp: get, set; symmetric_pair.cpp: operator==, hash")), ["Distance::operator()"])
prop("C15", "One distance object can be used from several threads",
     "When several threads use the same distance object at once, every call returns the right distance, no data race or deadlock occurs, and the object gives right answers afterwards, under every schedule. Likewise when each thread uses an object of its own.",
     ["schedules", "inputs"], "all interleavings of concurrent calls", "The tests are single-threaded.",
     DI + ["src/liblevenshtein/distance/memoized_distance.h"], m(("lock around the memo", "memoized_distance.cpp: get, set")), ["Distance::operator()"])
prop("C16", "A dictionary contains exactly the terms it was built from",
     "For every sorted sequence of terms (any bytes, any length, from a vector, list or set), membership of a string in the dictionary built from it is true exactly for the terms of the sequence.",
     ["inputs"], "all term sequences and probe strings", "Tests check a few word lists and a few absent words.",
     DW, m(("incremental construction and merging of equivalent suffixes", "sorted_dawg.cpp: add, minimize"), ("lookup", "dawg.cpp: contains")), ["Dawg::contains"])
prop("C17", "Size and iteration agree with the distinct terms",
     "The size of a dictionary is the number of distinct terms it was built from, and iterating it yields each of these terms exactly once and nothing else, also when terms are repeated in the input, when a dictionary is iterated again, and when additions were refused or a removal was attempted (which is always refused) in between.",
     ["inputs", "histories"], "all term sequences", "Tests iterate a few dictionaries without repeated terms.",
     DW + IT, m(("term counting", "sorted_dawg.cpp: add"), ("breadth-first iteration", "dawg_iterator.cpp: advance")), ["Dawg::size", "Dawg::begin/end"])
prop("C18", "Unsorted input is refused and sorted input accepted",
     "Building a dictionary from a sequence succeeds if and only if the sequence is sorted bytewise (repetitions allowed); otherwise no dictionary is returned. Adding terms one by one refuses exactly the terms smaller than the last accepted one, and a refused term leaves the dictionary unchanged.",
     ["inputs", "histories"], "all term sequences", "Tests try one unsorted input; the comparison of bytes above 0x7f, prefixes and empty terms is not covered.",
     DW[:1], m(("order check against the previous term", "sorted_dawg.cpp: add, sorted_dawg()")), ["sorted_dawg()", "SortedDawg::add"])
prop("C19", "The dictionary's word graph is minimal",
     "The word graph of every dictionary built from a sorted sequence has as many nodes as the sequence has distinct sets of completions of its prefixes (the minimal acyclic automaton), even when hash codes collide.",
     ["inputs"], "all term sequences", "Correct but larger graphs give the right answers; the tests check no node count beyond simple cases.",
     DW, m(("register of minimised nodes", "sorted_dawg.cpp: minimize, minimized_node"), ("node equality and hash", "dawg_node.cpp")), ["nodes reachable from Dawg::root"])
prop("C20", "One dictionary can be queried from several threads",
     "When several threads query the same dictionary at once, through one transducer or several, while others test membership, iterate, or build and free dictionaries of their own, every thread gets the results it would get alone and no data race occurs, under every schedule.",
     ["schedules", "inputs"], "all interleavings of concurrent queries", "The tests are single-threaded.",
     TR, m(("queries own their state; the dictionary is only read", "transducer.cpp, lazy_query.cpp")), ["Transducer::operator()", "Dawg::contains", "Dawg::begin"])
prop("C21", "Building and discarding dictionaries is memory-safe and leak-free",
     "Building a dictionary from any sequence (accepted or refused), abandoning a build half-way, iterating partly or fully and destroying it never accesses invalid memory and releases everything that was allocated.",
     ["inputs", "histories"], "all sequences and abandonment points", "Tests run without leak checking on refused and abandoned builds.",
     DW + IT, m(("floating nodes", "sorted_dawg.cpp: clean_up"), ("node ownership", "dawg.cpp: ~Dawg")), ["destructors"])
prop("C22", "Dictionaries are equal exactly when they have the same terms",
     "Two dictionaries compare equal if and only if they were built from the same set of terms; the comparison does not depend on the order of the operands, == and != disagree, and equal dictionaries have equal hash codes.",
     ["inputs"], "all pairs of dictionaries", "Tests compare a few pairs.",
     DW, m(("structural comparison", "dawg_node.cpp: operator==; dawg.cpp: operator=="), ("hash", "dawg.cpp, dawg_node.cpp")), ["Dawg::operator==", "std::hash<Dawg>"])
prop("C23", "Saving and loading reproduces the dictionary",
     "Every dictionary that is saved, to a stream or to a file named in any of the supported ways and whatever the file held before, loads back as an equal dictionary with the same terms, size, membership and query results, independent of the original and of other copies. Saving leaves the original unchanged, loading leaves the file unchanged, and both release what they allocate.",
     ["inputs", "configurations"], "all dictionaries and ways of saving and loading", "Tests round-trip one or two dictionaries.",
     SE, m(("node and edge collection", "serializer.cpp: collect_nodes, collect_edges, to_protobuf"), ("reconstruction", "serializer.cpp: from_protobuf")), ["serialize_protobuf", "deserialize_protobuf"])
prop("C24", "A truncated or corrupt file never loads as a broken dictionary",
     "Loading a missing, empty or truncated file, or arbitrary or altered bytes, either returns no dictionary or a well-formed one: acyclic, with as many distinct terms as its size says. It never returns other terms for a truncated file, never accesses invalid memory, always ends, and leaks nothing.",
     ["inputs", "crash_points", "fault_sequences"], "all truncation points and alterations", "Tests only load files just written.",
     SE, m(("validation while reconstructing", "serializer.cpp: from_protobuf")), ["deserialize_protobuf", "from_protobuf"])
prop("C25", "Saving reports success only if everything was written",
     "If the path cannot be opened, the stream is in a failed state, or fewer bytes than needed can be written, at whichever byte, saving returns false; it returns true only when the file or stream then loads back as an equal dictionary, and true whenever everything could be written.",
     ["fault_sequences", "crash_points", "inputs"], "all points of failure of the output", "Tests write to a healthy temporary directory.",
     SE, m(("status of serialising and of closing the file", "serializer.cpp: serialize_protobuf")), ["serialize_protobuf"])

prop("C26", "Word graphs assembled from nodes behave like built dictionaries",
     "A dictionary made from nodes assembled by hand (as loading does), minimal or not, with shared nodes, dead ends and any letters, contains, iterates and yields to queries of every algorithm exactly the words its paths spell; it equals the dictionary built from these words (unless it has dead ends, which count as a difference). An edge for a letter that already has one replaces it and frees the node it led to. Freeing a graph releases each node exactly once and ends in time proportional to its size, not to the number of its paths.",
     ["inputs", "configurations"], "all acyclic word graphs, probes and queries", "Tests assemble one or two tiny nodes; a dictionary built by the library is always minimal.",
     DW + IT + TR[:2], m(("edges of a node", "dawg_node.cpp: add_edge, transition"), ("collecting nodes to free", "dawg.cpp: all_nodes"), ("iteration and queries over shared nodes", "dawg_iterator.cpp, lazy_query.cpp")), ["DawgNode", "SortedDawg(root, size)"])

if os.path.exists(os.path.join(HERE, "tools", "extra_props.py")):
    exec(open(os.path.join(HERE, "tools", "extra_props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

NOTE = ("Bounded: for every input within the bounds listed per run in the evidence (string lengths, dictionary shapes, histories, preemptions) the real code, executed symbolically from its LLVM IR, "
        "meets the assertions; each branch and assertion is decided by Z3 or by rewriting under the path condition. Counterexamples count only when they reproduce natively. "
        "Trusted: the engine, clang's IR, Z3, the stand-ins for non-template libstdc++ code%s. Nothing is claimed outside the bounds.")
man = dict(version=1, setup_cmd="python3 check.py --setup",
           checks=[dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                        evidence_file="evidence/%s.json" % p["id"], technique="symbolic execution of the LLVM IR of the real code, decided by Z3 (bounded)", level="model_checking",
                        level_note=NOTE % (", the protobuf and file system stand-ins" if p["id"] in ("C23", "C24", "C25") else "")) for p in P],
           not_applicable=[], notes="No hooks in /repo: the harnesses use the public API. See DESIGN.md.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
