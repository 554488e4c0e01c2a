#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and /verif/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "runtime monitoring: "
GUIDED = (1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 28, 30, 33)
GT = "; coverage-guided generation of further cases under the same monitor"
GEN = "Cases: templates of every shape with systematic variation (every 2- or 3-way split, every byte value at every position, every insertion/removal, all short strings entered at many points of the grammar, every single interruption) plus random messages, mutations, cuts and replies from VERIF_SEED, everyday texts (methods, header names and values, media types, queries as they occur in practice) in their places, and, in a second stage built as shipped (C01: with assertions) with coverage and comparison feedback, cases evolved from these. "
NT1 = "Non-trivial: at least one callback was observed; distinct by hash of input, cuts, replies and parameters."
MODEL = "Trusts the harness' own executable reading of the documented grammar (harness/src/h1.rs, h2.rs, ut.rs), written as a byte-at-a-time automaton independent of the parser's states."
META = "Compares the code with itself, no model involved."
C = {
 "C01": (M + "panic/abort/hang monitor and watchdog over an overflow-checked build", GEN + NT1, "Debug-assertion and overflow-checked build; panics, signals, missing progress and calls longer than the watchdog are violations. Explores millions of executions, does not prove absence."),
 "C02": (M + "slices at inaccessible pages, AddressSanitizer and Miri", "Every prefix of every template and random cases, each slice placed so that it ends (or starts) at an inaccessible page; the same families with exactly sized heap slices under AddressSanitizer; a sample under the Miri interpreter. Distinct by hash of the case.", "Reads of even one byte outside a slice, use after free and undefined behaviour on executed paths are seen by hardware pages, ASan redzones or Miri; paths not executed are not judged."),
 "C03": (M + "metamorphic trace comparison (cut against whole)", GEN + NT1, META),
 "C04": (M + "online trace comparison with an executable specification", GEN + NT1, MODEL),
 "C05": (M + "online trace comparison with an executable specification", GEN + NT1, MODEL),
 "C06": (M + "online trace comparison with an executable specification", GEN + NT1, MODEL),
 "C07": (M + "online trace comparison with an executable specification", GEN + NT1, MODEL),
 "C08": (M + "metamorphic trace comparison (cut against whole)", GEN + NT1, META),
 "C09": (M + "interruption monitor and metamorphic trace comparison (interrupted against uninterrupted)", GEN + "Non-trivial: at least one callback replied false.", META),
 "C10": (M + "byte accounting monitor on every call, pipelines of messages", GEN + NT1, MODEL),
 "C11": (M + "error oracle: kind, byte and position against an executable specification", GEN + "Non-trivial: the input is malformed.", MODEL),
 "C12": (M + "terminal state monitor: further calls after the end", GEN + "Non-trivial: the message finished or failed, so that further calls were made.", META),
 "C13": (M + "differential execution of used and fresh parsers", "Random and systematic histories (every cut of every template before a message of every mode), then the same message on a used and on a fresh parser. Distinct by hash of history and message.", META),
 "C14": (M + "online trace comparison with an executable specification", GEN + NT1, MODEL),
 "C15": (M + "metamorphic trace comparison (cut against whole)", GEN + NT1, META),
 "C16": (M + "trace monitor for malformed frames", GEN + NT1, MODEL),
 "C17": (M + "interruption, byte accounting and end-of-payload monitors", GEN + "Non-trivial: at least one callback replied false.", META),
 "C18": (M + "output comparison with an executable specification and with the encoded original", GEN + "Non-trivial: not the empty string; distinct by input.", MODEL),
 "C19": (M + "output comparison with an executable specification and with the encoded original", GEN + "Non-trivial: not the empty string; distinct by input and parameters.", MODEL),
 "C20": (M + "output comparison with an executable specification and with the encoded original", GEN + "Non-trivial: not the empty string; distinct by input and parameters.", MODEL),
 "C21": (M + "UTF-8 validity monitor on every String returned", GEN + "All two-byte sequences raw and escaped in each utility, sequences around every UTF-8 boundary. Non-trivial: not the empty string; distinct by input.", "Strings are inspected byte by byte; that invalid input is reported is decided with the executable specification."),
 "C22": (M + "callback protocol automaton run on every trace", GEN + NT1, "The automaton (harness/src/misc.rs, protocol) states the documented callback order of each mode; nothing else is assumed."),
 "C23": (M + "timeliness monitor at every end of slice, accounting allocator", GEN + "Also inputs of megabytes of every shape and messages with parts repeated. " + NT1, MODEL + " Memory is what a counting global allocator sees on the parsing thread."),
 "C24": (M + "exhaustive comparison of the code tables and field mappings", "All 256 frame types, error codes and flag bytes, all 65536 setting identifiers, frame formats with edge and random fields, and frames reported by the parser mapped back.", "Tables written down again from RFC 7540 in harness/src/misc.rs."),
 "C25": (M + "exhaustive comparison of byte classes", "All 256 bytes in every exported predicate, at 29 positions of the grammar in three cuts, and in field parameters.", "Classes written down again from RFC 7230 (token, field text, quoted text)."),
 "C26": (M + "differential execution interleaved and on parallel threads, ThreadSanitizer, Miri data race detector", "Exchanges run alone, interleaved call by call with others, and on four threads at once; compared with the run alone. Non-trivial: every case; distinct by hash.", META + " Races are those on executed interleavings."),
 "C27": (M + "instruction counts under callgrind at n, 2n, 4n; callback and call counts", "Over 60 shapes that stress one construct each, and random messages with a part repeated, in one slice, byte by byte, in slices of 16 bytes and interrupted everywhere. Distinct by shape, cut and input.", "Instruction counts are deterministic; linear means at most 2.6 times the cost per doubling and a bounded cost per byte, at inputs up to 16 KB (quick) or 128 KB (thorough)."),
 "C28": (M + "state monitor on every call, metamorphic comparison of final states", GEN + "Initial states after every prefix of every template and every way to start over. " + NT1, META + " The names of the initial states are those that the documentation lists first for each mode."),
 "C29": (M + "exhaustive comparison of printed forms", "Every variant of every public error, result and code with all bytes and edge and random values; errors returned by random runs. Distinct by value or input.", "Texts are split into words: names and numbers must be there, wording and punctuation are free."),
 "C30": (M + "differential execution of full, partial and empty handlers", GEN + NT1, META),
 "C31": (M + "metamorphic trace comparison of equivalent encodings", "Random pairs of encodings of the same thing from VERIF_SEED, each with its own cuts and replies. Non-trivial: callbacks were observed; distinct by both inputs.", META),
 "C32": (M + "metamorphic trace comparison of a sequence with its elements", "Random sequences of 2 to 400 elements drawn from a few random ones, each of which is well-formed alone. Distinct by hash of input, cuts and replies.", META),
 "C33": (M + "address monitor on every slice given to a callback", GEN + NT1, "Addresses are compared with the slice of the call under way; what may lie elsewhere (names, single decoded bytes, at most a boundary and four bytes of part data) is not judged."),
 "C34": (M + "comparison of == and != with the variant and number of each value", "All pairs of errors × 256 bytes, codes and flags, lengths and frame formats that differ in one bit, and results, errors and states of runs of every mode, each compared with each, with copies and clones. Distinct by row or by run.", "Values of runs are the same when they are printed alike (C29 decides what printing tells); numbers of unsupported frame types and codes are not judged."),
 "C35": (M + "comparison with the reference models in the interpreter (Miri) for s390x and i686", "Templates of every kind, random messages and frames, frames of every type cut within their numbers, chunk lengths of up to 32 bits, lengths that agree in their low bits only, numbers mapped to elements and utility texts, interpreted for both machines and run natively. Non-trivial: callbacks were observed; distinct by hash of the case.", "The interpreter executes the code as compiled for those machines; its model of them is trusted. A few hundred cases each in quick, twenty times as many in thorough."),
}
for i in GUIDED:
    k = "C%02d" % i
    C[k] = (C[k][0] + GT,) + C[k][1:]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = [dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, technique=C[i][0], level="exploration", level_note=C[i][2]) for i in ids if i in C]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[dict(property=i, reason="not built yet") for i in ids if i not in C],
         notes="All checks use the public API of the crate; no hooks are needed in /repo. The commits in /repo are repairs (fix:), listed in known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
json.dump({i: dict(rule=C[i][1], assumptions=[C[i][2]]) for i in C}, open(os.path.join(V, "checks.json"), "w"), indent=1); open(os.path.join(V, "checks.json"), "a").write("\n")
