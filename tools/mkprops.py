#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, **({"state": state} if state else {}),
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {}), "hook_needed": hook}})

prop("C01", "Segment tiles the text: nothing lost, duplicated or reordered",
 "For every byte string (including invalid UTF-8, NUL bytes and mixed scripts), every loaded dictionary and every setting of the Alpha/Num/AlphaNum options (also when they change after loading), the segments returned by Segment and ModeSegment cover the text: the first starts at 0, each starts where the previous one ends, the last ends at the length of the text, none is empty. "
 "Each segment's text is exactly the text's bytes between its Start and End, with only ASCII letters inside letter/number words lowercased while the package's ToLower switch is on. Splitting never panics.",
 ["inputs", "configurations", "histories"], "all byte strings x dictionaries (built by any load/add/remove history) x Alpha/Num/AlphaNum/ToLower settings, before or after loading",
 "The tests segment a dozen fixed, valid sentences with fixed options; the offsets of the other inputs and of options changed after loading are never looked at.",
 ["segmenter.go", "token.go"], [("segmentWords: forward jumps, backtrack, byte positions", "segmenter.go"), ("SplitTextToWords", "segmenter.go")],
 ["Segmenter.Segment", "Segmenter.ModeSegment", "Segment.Start/End/Token"])

prop("C02", "Segment is a minimum-cost path over the dictionary",
 "The segmentation returned by Segment has minimal total cost among all ways to split the text at atom boundaries into dictionary words (of at most the longest dictionary word's number of atoms) and unknown single atoms: a word added before the last cost calculation costs log2(total frequency / its frequency), a word added since costs 0, and an unknown atom costs 32. "
 "An atom that is itself a dictionary word is never treated as unknown.",
 ["inputs", "configurations", "histories"], "all texts x dictionaries and histories of add/remove/recalculate, with costs compared up to float32 rounding",
 "Tests compare a few sentences with the output somebody once saw; minimality against every alternative split needs a search over splits.",
 ["segmenter.go", "dict_util.go", "dictionary.go"], [("updateJumper / segmentWords", "segmenter.go"), ("CalcToken distances", "dict_util.go"), ("LookupTokens", "dictionary.go")],
 ["Segmenter.Segment"])

prop("C03", "A segment carries exactly its dictionary entry",
 "The token of every returned segment carries the frequency and part of speech the word has in the dictionary at that moment; an atom that is not a word carries frequency 1 and part of speech \"x\". "
 "Token.Text is the segment's text, and Token.Equals(s) holds exactly when s has the same bytes; ToSlice, ToString, ToPos and Slice, String, Pos, Cut without the HMM argument list the same words in the same order.",
 ["inputs", "histories"], "all texts x dictionary histories (first-wins duplicates, removals, re-adds)",
 "Tests look at the pos of a few words of one dictionary; stale or swapped entries need histories.",
 ["segmenter.go", "token.go", "seg_utils.go", "gse.go"], [("Token accessors and Equals", "token.go"), ("ToString/ToSlice/ToPos", "seg_utils.go")],
 ["Segment.Token", "ToSlice", "ToString", "ToPos", "Segmenter.Cut/Slice/String/Pos"])

prop("C04", "Atom splitting follows the character classes",
 "SplitTextToWords splits a text into maximal runs of letters and numbers of at most two UTF-8 bytes (ASCII letters lowercased while ToLower is on), every other character - and every invalid byte - standing alone unchanged; SplitWords does so with default options. "
 "With Alpha letters, and with Num numbers, no longer join runs and stand alone unchanged; with AlphaNum each character of a run stands alone, lowercased. The concatenation of the result is the text up to that lowercasing.",
 ["inputs", "configurations"], "all byte strings x Alpha/Num/AlphaNum/ToLower",
 "TestSplit checks three strings with default options.",
 ["segmenter.go"], [("SplitTextToWords", "segmenter.go")], ["Segmenter.SplitTextToWords", "SplitWords"])

prop("C05", "DAG and HMM cuts lose nothing and always end",
 "For every string and every dictionary, joining the pieces of Cut(s,false), Cut(s,true), CutDAG, CutDAGNoHMM and HMMCut gives back the string (lowercased by Unicode rules while ToLower is on, except for HMMCut, which changes no letter), every invalid byte counting as the replacement character; no piece is empty. "
 "This also holds with user-supplied regular expressions of any kind, including ones that match the empty string: the cut ends and does not panic.",
 ["inputs", "configurations"], "all strings x dictionaries x user regexps (skip and word regexps)",
 "Tests use clean sentences and no user regexps; termination for all regexps is out of reach of samples.",
 ["dag.go", "hmm/hmm_seg.go", "gse.go"], [("cutDAG / cutDAGNoHMM", "dag.go"), ("Cut, findLoc, locJudge", "hmm/hmm_seg.go")],
 ["Segmenter.Cut(s,bool)", "CutDAG", "CutDAGNoHMM", "HMMCut", "hmm.Cut"])

prop("C06", "Cut without HMM is a most probable dictionary route",
 "Cut(s,false) and CutDAGNoHMM split the (lowercased) text into a route of maximal probability: among all splits into dictionary words of positive frequency and single characters that start no such word, the product of frequency/total is maximal (a character that is no word counting with frequency 1). "
 "Then each maximal run of neighbouring one-character pieces that are ASCII letters or digits is output as one piece, and nothing else is merged.",
 ["inputs", "histories"], "all texts x dictionary histories, products compared up to rounding",
 "Tests sample a few sentences; optimality quantifies over all alternative routes.",
 ["dag.go"], [("getDag, calc", "dag.go"), ("cutDAGNoHMM", "dag.go")], ["Segmenter.Cut(s,false)", "CutDAGNoHMM"])

prop("C07", "Cut with HMM keeps the route's words and re-cuts only the rest",
 "Cut(s,true) and CutDAG keep every word of two or more characters of a most probable dictionary route and touch only the maximal runs of one-character pieces between them: a run of one character is output as is, a run that is itself a dictionary word of positive frequency as its single characters, any other run as HMMCut cuts that run. "
 "So no output piece crosses the border of a route word.",
 ["inputs", "histories", "configurations"], "all texts x dictionaries x HMM models",
 "Tests sample a few sentences with one dictionary.",
 ["dag.go", "hmm/hmm_seg.go"], [("cutDAG, hmm", "dag.go")], ["Segmenter.Cut(s,true)", "CutDAG", "HMMCut"])

prop("C08", "HMM cut is the Viterbi optimum of the loaded model",
 "HMMCut cuts a text at the Han runs: each Han run is split into the words of a most probable B/M/E/S state path under the currently loaded emission tables and the fixed start and transition probabilities (characters missing from a table having the minimal probability); outside Han runs each number or ASCII letter/digit run is one piece, and what lies between is one piece. "
 "LoadModel with four tables replaces the emission tables, LoadModel without tables restores the built-in ones; with user regexps the first selects the skipped pieces and the second the runs to split.",
 ["inputs", "histories", "configurations"], "all texts x emission tables x sequences of model loads",
 "TestViterbi and TestCut check one sentence each with the built-in model; no user model is tested.",
 ["hmm/hmm_seg.go", "hmm/viterbi.go", "hmm/prob_emit.go", "hmm/prob_trans.go"], [("Viterbi", "hmm/viterbi.go"), ("LoadModel, internalCut", "hmm/hmm_seg.go")],
 ["Segmenter.HMMCut", "HMMCutMod", "LoadModel", "hmm.Viterbi", "hmm.Cut"],
 state=[{"name": "emission tables", "meaning": "the model shared by all segmenters", "where": "hmm package"}])

prop("C09", "CutAll lists every dictionary word, and only necessary singles",
 "CutAll outputs, in order of start and then of length, every occurrence in the (lowercased) text of a dictionary word of two or more characters and positive frequency. "
 "A single character is output exactly when no such longer word starts at it and the piece output last before it ends before it.",
 ["inputs", "histories"], "all texts x dictionary histories",
 "Tests check the listing for a few sentences; completeness quantifies over all words and positions.",
 ["dag.go"], [("cutAll, getDag", "dag.go")], ["Segmenter.CutAll"])

prop("C10", "CutSearch emits each word after its dictionary 2- and 3-grams",
 "CutSearch(s,hmm) outputs the words of Cut(s,hmm) in order, each preceded by all its two-character substrings that are dictionary words of positive frequency (if the word has more than two characters), then all such three-character substrings (if it has more than three), from left to right, and nothing else.",
 ["inputs", "histories"], "all texts x dictionaries x both HMM settings",
 "Tests check a few sentences.",
 ["dag.go", "gse.go"], [("cutForSearch", "dag.go")], ["Segmenter.CutSearch(s,bool)"])

prop("C11", "Search mode expands the same segments by their sub-words",
 "ModeSegment(text,true) returns the same segments as Segment. A word's sub-segments are a minimum-cost split of the word that does not use the word itself, as of the last cost calculation, without single Hiragana/Katakana atoms; single-atom words have none. "
 "The search outputs (ToSlice, ToString, ToPos, and Slice, String, Pos, CutSearch without an HMM argument) print for each segment first its sub-segments, recursively, starting from the first one that has at least two sub-segments of its own or begins with a Hiragana/Katakana atom, and then the word itself; all of them agree word for word.",
 ["inputs", "histories"], "all texts x dictionaries (nested words to any depth) x histories of add and recalculate",
 "Tests print one nested example.",
 ["segmenter.go", "dict_util.go", "seg_utils.go"], [("CalcToken sub-segments", "dict_util.go"), ("tokenToString/tokenToSlice/tokenToPos", "seg_utils.go"), ("segmentWords search mode", "segmenter.go")],
 ["Token.Segments", "ToSlice/ToString/ToPos(segs,true)", "Slice/String/Pos(s,true)", "CutSearch(s)"])

prop("C12", "The dictionary behaves as a map over every edit history",
 "After any history of AddToken, AddTokenForce, ReAddToken and RemoveToken (with any words, also empty ones, words with NUL, prefixes and extensions of each other), Find gives for each present word the frequency and pos it was last added with while absent, for a non-empty string that is only a proper prefix of present words (0, \"\", true), and otherwise (0, \"\", false); adding a present word changes nothing, removing an absent one returns an error and changes nothing, and no operation affects another word. "
 "Value finds exactly the present words, and gives the position of the word's entry in the dictionary's token list; LookupTokens gives exactly the present words that are the first atoms of the text, from short to long. The token count and total frequency grow by each addition that took effect and never otherwise, and MaxTokenLen is the largest number of atoms of a word ever added.",
 ["histories", "inputs"], "all finite histories of edits over words that share prefixes, including invalid and empty ones",
 "Tests add and remove one or two words; interference between words needs longer histories over prefix-related words.",
 ["dictionary.go", "dict_util.go", "dag.go"], [("AddToken/RemoveToken/Find/Value", "dictionary.go"), ("ReAddToken", "dict_util.go")],
 ["Segmenter.Find/Value", "Dictionary.NumTokens/TotalFreq/MaxTokenLen"],
 state=[{"name": "word -> (freq, pos)", "meaning": "the live words", "where": "Dictionary trie and Tokens"}])

prop("C13", "All loading paths read the same lines to the same dictionary",
 "A dictionary line 'word freq pos' (freq and pos optional, fields separated by blanks, or by DictSep and a blank) adds the word with that frequency and pos through LoadDict of a file, Reader, LoadDictStr and (as maps) LoadDictMap alike: lines without a frequency are skipped unless LoadNoFreq, which gives them TextFreq; lines whose frequency is not a finite number or below MinTokenFreq are skipped; one-character words get frequency 2; a missing pos is empty. "
 "A word listed before - in the same source or an earlier one - keeps its first entry, and no line affects another.",
 ["inputs", "configurations"], "all dictionary sources (malformed lines, blank lines, duplicates, missing final newline) x DictSep/LoadNoFreq/MinTokenFreq/TextFreq",
 "Tests load a handful of well-formed lines per format and never compare the formats.",
 ["dict_util.go", "dict_1.16.go"], [("Reader, ReadN, Size, LoadDictMap, LoadDict", "dict_util.go"), ("LoadDictStr", "dict_1.16.go")],
 ["Segmenter.Find", "Dictionary.Tokens"])

prop("C14", "Loading accumulates; Empty resets; no call order panics",
 "Every LoadDict, LoadDictStr, LoadDictMap, Reader or AddToken after another adds to the words already there, in any order of the calls, until Empty, after which no word is found; loading or adding after Empty, or on a zero Segmenter, starts a new dictionary with only the new words. "
 "No order of loading, emptying, adding, removing, looking up and cutting panics, also with no dictionary at all, and a load that fails (on a missing file, a directory, a reader with an error) ends with an error and keeps the words that were there.",
 ["histories"], "all histories of load, empty, edit and query operations on one segmenter, from the zero value on",
 "Tests use each loader once on a fresh segmenter.",
 ["dict_util.go", "dict_1.16.go", "dictionary.go"], [("initDict, Load flag, Empty", "dict_util.go"), ("LoadDictStr", "dict_1.16.go")],
 ["Segmenter.Find/Cut/Segment", "Dictionary.NumTokens"],
 state=[{"name": "Load / Dict", "meaning": "whether a dictionary is there", "where": "Segmenter"}])

prop("C15", "SuggestFreq makes a word join, or its parts split",
 "For a text of two or more characters without ASCII letters or digits that lowercasing leaves as it is, adding it with the frequency SuggestFreq(text) suggests (after removing an entry it has) makes Cut(text,false) return it whole. "
 "For several words SuggestFreq returns the smaller of the joined word's current frequency and the integer part of the product of the parts' probabilities times the total frequency; for one word the larger of its current frequency (1 if absent) and one more than that integer part for its own cut.",
 ["inputs", "histories"], "all texts x dictionaries with positive total frequency",
 "Tests check two suggested numbers.",
 ["dag.go", "dict_util.go"], [("SuggestFreq", "dag.go"), ("AddTokenForce/ReAddToken", "dict_util.go")], ["Segmenter.SuggestFreq", "Cut(s,false)"])

prop("C16", "Stop words behave as a set, per segmenter",
 "After any history of AddStop, AddStopArr, LoadStop, LoadStopArr, LoadStopStr, LoadStopEmbed, RemoveStop and EmptyStop, from a zero segmenter on, IsStop holds exactly for the words added and not removed or emptied since (files and strings add their non-empty lines), Stop and CutStop drop exactly the stop words and empty strings and keep the rest in order, and no such operation panics or affects another segmenter.",
 ["histories", "inputs"], "all histories of stop-word operations over several segmenters",
 "TestStop checks a few words after one load.",
 ["stop.go", "dict_1.16.go", "trim.go"], [("AddStop/RemoveStop/EmptyStop/IsStop", "stop.go"), ("LoadStopStr", "dict_1.16.go"), ("Stop", "trim.go")],
 ["Segmenter.IsStop", "Stop", "CutStop"])

prop("C17", "Trim and filter functions keep exactly what they document",
 "FilterSymbol removes exactly symbols, spaces and punctuation, FilterEmoji exactly the four-byte characters, FilterLang keeps exactly letters and characters of the named script (none for an unknown name), FilterHtml removes exactly the spans from a '<' to the next '>' that contain a character and whose last one is an ASCII word character, '|', '=' or '\"', SplitNum splits into maximal runs of ASCII digits and of other characters, Range and RangeText list the characters. "
 "Trim, TrimSymbol, TrimPos, TrimPunct, TrimPosPunct and TrimWithPos keep, in order, exactly the items whose filtered text is non-empty (TrimPunct: with a character that is neither space nor punctuation, TrimPosPunct: such a first character), that are no stop words unless NotStop (Trim, TrimPos, TrimPosPunct) and that have none of the given parts of speech (TrimWithPos). None of them changes its input.",
 ["inputs", "configurations"], "all strings and lists x stop sets x NotStop",
 "Tests filter one or two strings each.",
 ["trim.go", "hmm/pos/pos_seg.go"], [("Trim*, Filter*, SplitNum, Range", "trim.go"), ("Trim, TrimPunct, TrimWithPos", "hmm/pos/pos_seg.go")],
 ["return values; the input slices after the call"])

prop("C18", "Composite cuts equal the composition of their parts",
 "CutStop, CutTrim, CutTrimHtml(s), CutUrl(s), PosTrim, PosTrimArr and PosTrimStr give the result of cutting with Cut (or Pos) and applying the documented filters and joins in order: CutStop = Stop of Cut, CutTrim = Trim of Cut, CutTrimHtml = TrimSymbol of Cut of FilterHtml, CutUrl = TrimSymbol of Cut of the text with blanks put between digit and non-digit runs (not put with its extra argument), PosTrim = TrimPos of TrimWithPos of Pos. "
 "CutStr and PosStr join with exactly one separator (a blank by default) between items, PosStr as text/pos or, with SkipPos, text alone; the ...s and ...Str variants join with a blank.",
 ["inputs", "configurations", "histories"], "all texts x dictionaries x stop sets x SkipPos/NotStop",
 "Tests check one text per function.",
 ["trim.go", "gse.go"], [("CutTrim, PosTrim*, CutTrimHtml(s), CutUrl(s)", "trim.go"), ("CutStr, PosStr", "gse.go")], ["return values"])

prop("C19", "Analyze gives each piece its true place",
 "Analyze of a list of pieces returns one entry per piece in order, with its position number, text, and its dictionary frequency and pos. Without a text the offsets are contiguous from 0, in bytes, or in characters with the extra argument; with a text each piece that occurs in it (lowercased while ToLower is on) gets a span [Start,End) at which the text has exactly that piece. "
 "FindAllOccs returns only true occurrences, and at least one for each non-empty piece that occurs; empty pieces do no harm.",
 ["inputs"], "all piece lists (repeated, overlapping, absent, empty pieces) x texts",
 "TestAnalyze looks at one sentence.",
 ["dag.go"], [("Analyze, FindAllOccs", "dag.go")], ["Segmenter.Analyze", "FindAllOccs"])

prop("C20", "POS cut loses nothing and tags dictionary words with their pos",
 "For every text and dictionary the pieces of the POS segmenter's Cut (with and without HMM), joined, give back the text (an invalid byte counting as the replacement character) and none is empty. "
 "Each piece of two or more characters that is a route word gets the dictionary's pos of that word - also the first word of the dictionary -, each one-character piece of Cut without HMM its dictionary pos or \"x\" if it is no word, each merged run of ASCII letters or digits \"eng\", and each character outside Han, ASCII letters, digits and + # & . _ is a piece of its own tagged \"x\" (CR LF together).",
 ["inputs", "configurations", "histories"], "all texts x dictionaries, both HMM settings",
 "TestCut in hmm/pos checks one sentence.",
 ["hmm/pos/pos_seg.go", "hmm/pos/dict.go", "hmm/util/util.go"], [("Cut, cutDAG, cutDAGNoHMM, cutDetail", "hmm/pos/pos_seg.go"), ("Dict.Pos", "hmm/pos/dict.go"), ("RegexpSplit", "hmm/util/util.go")],
 ["pos.Segmenter.Cut"])

prop("C21", "POS cut without HMM follows a most probable route",
 "Inside each block of Han characters, ASCII letters, digits and + # & . _ the POS segmenter's Cut without HMM splits the text into a route whose product of word probabilities (frequency/total, frequency 1 for a character that is no word) is maximal, merging neighbouring single ASCII letters and digits.",
 ["inputs", "histories"], "all texts x dictionaries",
 "The single test sentence has words for which scoring with raw frequencies gives the same route.",
 ["hmm/pos/pos_seg.go", "hmm/pos/dict.go"], [("calc, getDag", "hmm/pos/pos_seg.go")], ["pos.Segmenter.Cut(text)"])

prop("C22", "ExtractTags returns the top TF-IDF words of the cut",
 "ExtractTags(text,k) returns the k heaviest (all, if there are fewer) of the distinct words of Cut(text,true), trimmed of blanks, that have at least two characters and are no stop words, in order of falling weight and then of falling text: a word's weight is its share among those occurrences times its IDF, where a word without an IDF takes the median of the IDFs added one by one. "
 "Words added to an Idf, also to a new one, are found with their value.",
 ["inputs", "configurations"], "all texts x dictionaries x IDF tables x stop sets x k",
 "TestExtAndRank only prints the result.",
 ["hmm/idf/tag_extracker.go", "hmm/idf/idf.go", "hmm/idf/stop_words.go", "hmm/segment/segment.go"], [("ExtractTags", "hmm/idf/tag_extracker.go"), ("Idf.AddToken, Freq", "hmm/idf/idf.go"), ("Segments.Less", "hmm/segment/segment.go")],
 ["TagExtracter.ExtractTags", "Idf.Freq/NumTokens/TotalFreq"])

prop("C23", "TextRank is the deterministic rank of the co-occurrence graph",
 "TextRank(text,k) and TextRankWithPOS return, the same on every call, the words that co-occur: pairs of words of the POS cut with allowed parts of speech at most four places apart are joined by an edge weighted by their number, ten damped rank iterations (factor 0.85) over the words in sorted order are made from equal ranks, and the weights are the ranks minus a tenth of the least, divided by the greatest minus a tenth of the least. "
 "The list is in order of falling weight, cut to k if k is positive; all weights lie in (0,1], and the greatest is 1.",
 ["inputs", "configurations"], "all texts x dictionaries x allowed pos lists x k, over repeated runs",
 "TestExtAndRank only prints the result, and one run cannot show a dependence on map order.",
 ["hmm/idf/textrank.go", "hmm/segment/segment.go"], [("TextRankWithPOS, addEdge, rank", "hmm/idf/textrank.go")],
 ["TextRanker.TextRank", "TextRankWithPOS"])

prop("C24", "Concurrent queries and new segmenters are safe and independent",
 "Any number of goroutines may query one segmenter (all segmenting, cutting, lookup and trimming methods) while others create, load and query segmenters of their own: no schedule races, crashes or deadlocks, and every call returns what it returns when run alone.",
 ["schedules", "inputs"], "all interleavings of queries on a shared segmenter and creations, loads and edits of others",
 "The tests are sequential.",
 ["segmenter.go", "dag.go", "hmm/hmm_seg.go", "hmm/viterbi.go", "dict_util.go"], [("queries do not write shared state", "segmenter.go, dag.go"), ("emitMu", "hmm/hmm_seg.go")],
 ["results and the race detector"])

prop("C25", "Swapping the HMM model is atomic",
 "While goroutines load HMM models and others cut with the HMM, no schedule races, crashes or deadlocks, and every cut of a Han run is one that a single model gives which was the loaded one at some moment during the call.",
 ["schedules"], "all interleavings of LoadModel and HMM cuts",
 "The tests are sequential.",
 ["hmm/hmm_seg.go", "hmm/viterbi.go"], [("emitMu", "hmm/hmm_seg.go")], ["LoadModel", "HMMCut"],
 state=[{"name": "emission tables", "meaning": "the model shared by all segmenters", "where": "hmm package"}])

prop("C26", "The server's add and json requests are linearizable",
 "Concurrent requests to the HTTP server take effect one at a time, each between its arrival and its answer: every /json answer is the segmentation of its text under the dictionary made of the /add requests before it, with /add of a word that is there changing nothing; every answer is well-formed JSON, and no request crashes or races.",
 ["schedules", "inputs", "histories"], "all concurrent histories of /add and /json requests",
 "The server has no tests.",
 ["tools/server/server.go"], [("segMu", "tools/server/server.go"), ("addToken, JsonRpcServer", "tools/server/server.go")], ["HTTP /add, /json"])

prop("C27", "Queries change nothing, and segmenters do not affect each other",
 "No query method changes what any later call returns: the same call on the same segmenter gives the same result however many queries, on whatever texts, came between, and the slices the caller passed, and the results returned before, keep their contents. "
 "Editing, loading or emptying the dictionary or stop words of one segmenter never changes the results of another.",
 ["histories", "inputs"], "all interleavings of queries and of edits to other segmenters between two equal calls",
 "Tests do not repeat calls or compare segmenters.",
 ["segmenter.go", "dag.go", "dictionary.go", "stop.go"], [("no writes in query paths", "segmenter.go, dag.go"), ("per-segmenter state", "segmenter.go")],
 ["all query results"])

prop("C28", "Dictionary names resolve each to its own files, in order",
 "DictPaths maps a comma-separated list (with ', ' or ',') to paths name by name in order: zh to the traditional then the simplified dictionary, zh_s, zh_t and ja or jp each to their one, any other name to itself; en, ko, ti, the empty name and a blank to none. "
 "A name's files do not depend on the names before it.",
 ["inputs"], "all lists of names",
 "TestDictPaths checks a few lists.",
 ["dict_util.go"], [("DictPaths", "dict_util.go")], ["DictPaths"])

prop("C29", "POS cut with HMM tags unknown runs by the most probable path",
 "In the POS segmenter's Cut with HMM the route words of several characters stay, with their pos. Each maximal run of single characters between them in a block is, if it is one character or itself a word, given as its characters with their dictionary pos (\"x\" if none); any other run is cut anew: digits and points \"m\", other characters that are no Han \"eng\" if one is a letter and else \"x\", and each run of Han into the words and tags of a most probable state path of the built-in part-of-speech model over the states that its character table allows.",
 ["inputs", "histories"], "all texts x dictionaries, over the characters the model knows and those it does not",
 "The single test sentence shows a handful of runs; a path that is not the best, or a wrong tag of a rare character, needs the optimum over all state paths as the oracle.",
 ["hmm/pos/pos_seg.go", "hmm/pos/viterbi.go", "hmm/pos/char_state_tab.go", "hmm/pos/prob_emit.go", "hmm/pos/prob_trans.go", "hmm/pos/prob_start.go"],
 [("viterbi, probs", "hmm/pos/viterbi.go"), ("cutDetail, cutDetailInternal, bufn", "hmm/pos/pos_seg.go")],
 ["pos.Segmenter.Cut(text, true)"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
