#!/usr/bin/env python3
"""Writes tools/notes.json: technique and level note of each check."""
import json, os
T = "TLA+ (TLC): model checking, behaviours of the model replayed into the code, traces of the code validated against the specification"
TT = "TLA+ (TLC): trace validation of recorded calls against the specification"
TC = "TLA+ (TLC): concurrent traces of the code validated against the specification (linearization search), race detector"
N = {
 "C01": (T, "All texts of up to 4 (thorough 5) pieces of 6 kinds are segmented under 4 settings and judged; random sessions over dictionaries, edits, options and arbitrary bytes beyond that."),
 "C02": (T, "On every dictionary of up to 2 (3) additions over two small alphabets TLC checks that the specification's minimum is the minimum over all splits and that the code's algorithm, transcribed, attains it; these dictionaries and random sessions are replayed and every segmentation is compared with the minimum (float32 rounding allowed)."),
 "C03": (T, "Entries of segments and the plain outputs are compared with the specification's dictionary state on small-dictionary behaviours and random sessions with edits."),
 "C04": (T, "All texts of up to 4 (6) pieces x 8 settings, where TLC checks that the operational split is the declared one; random texts over all character classes."),
 "C05": (T, "All short texts and random texts, dictionaries and regular expressions (also ones that match the empty string); calls that do not come back are detected by a watchdog."),
 "C06": (T, "As C02, for routes of greatest probability over runes (logarithms in 1/65536 bits, rounding allowed)."),
 "C07": (T, "Small-dictionary behaviours and random sessions; the pieces between route words are compared with HMMCut of the very run."),
 "C08": (T, "All short texts x 5 models, random Han texts and models; every run is compared with the Viterbi optimum computed in TLA+ on the emission tables. MCHmm checks on small models that the recurrence is the minimum over all state paths. Where emissions are missing only their number is compared."),
 "C09": (T, "MCCut checks full mode against its declarative statement; behaviours and random sessions are judged exactly."),
 "C10": (T, "Small-dictionary behaviours and random sessions are judged exactly."),
 "C11": (T, "MCCut checks that the sub-segments are well defined on every small dictionary; trees and all search outputs of behaviours and random sessions are judged exactly (costs up to rounding)."),
 "C12": (T, "All histories of up to 4 (5) calls out of 14 are model-checked word by word; behaviours of up to 4 (6) calls and random longer histories are replayed and every lookup judged."),
 "C13": (TT, "Random rows through all loading paths, and loose sources; dictionary contents judged exactly. Lines of more than three blank-separated fields and lone carriage returns are outside."),
 "C14": (T, "All histories of up to 4 loads, empties and edits are model-checked; behaviours and random life cycles are replayed."),
 "C15": (T, "Suggested frequencies are compared with the specification's product (logarithms, rounding at integer borders allowed) and the word is added and cut."),
 "C16": (T, "All histories of up to 4 (5) stop word calls out of 13 on two segmenters are model-checked and replayed; random histories."),
 "C17": (T, "All texts of up to 3 (5) pieces of 9 kinds through every filter and trimmer; random texts and lists."),
 "C18": (TT, "Composite cuts are judged against the specification's filters applied to the recorded parts."),
 "C19": (TT, "Recorded analyses and occurrences judged exactly."),
 "C20": (T, "Small-dictionary behaviours and random sessions."),
 "C21": (T, "Small-dictionary behaviours and random sessions; one known finding (see known-findings.txt)."),
 "C22": (TT, "Weights compared to 1/10000 with the specification's TF-IDF."),
 "C23": (TT, "Ranks of repeated calls compared with each other and to 1/10000 with the specification's rank."),
 "C24": (TC, "Random schedules of 4 to 7 goroutines on a shared segmenter and their own, under the race detector; results compared with those of the calls alone. Schedules are those the Go scheduler gives."),
 "C25": (TC, "Random schedules of loads and cuts; TLC searches for a linearization of the loads that explains every run of every cut. MCLock checks all interleavings of the lock protocol, and that without the lock a torn model is found."),
 "C26": (TC, "The server, built with the race detector, is driven by 3 to 5 clients over loopback; TLC searches for a linearization. MCLock checks all interleavings of the locked handlers, and that the unlocked ones are caught."),
 "C27": (T, "All sequences of up to 3 (4) queries and edits of another segmenter out of 19 calls are model-checked and replayed; random sessions repeat the same calls between others."),
 "C29": (T, "MCPosVit checks on a small model that the recurrence is the minimum over all state paths and that pieces and paths match; small-dictionary behaviours and random texts of common, rare and unknown characters are replayed, and every run is compared with the optimum computed in TLA+ on the model's tables (data/pos.json). Where probabilities are missing only their number is compared."),
 "C28": (T, "All lists of up to 3 (4) names out of 8, and random lists."),
}
json.dump({k: {"technique": t, "note": n} for k, (t, n) in N.items()},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "notes.json"), "w"), indent=1)
