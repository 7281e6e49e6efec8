---- MODULE Gse ----
(***************************************************************************)
(* The system: any number of segmenters, and the state they share (the HMM  *)
(* model and the ToLower switch).  Apply(G, e) is the effect of the call e; *)
(* it is the transition relation of the models (MC*.tla) and of the traces  *)
(* (GseTrace.tla) alike.                                                    *)
(***************************************************************************)
EXTENDS Dag, Hmm, Filter, Rank

(* A segmenter: d dictionary, o split options, st stop words, fr the         *)
(* frequencies added to it as an IDF, and its settings: lnf LoadNoFreq,      *)
(* mtf MinTokenFreq and tf TextFreq in quarters (0: not set; -1: no number), *)
(* sep DictSep, ns NotStop, skp SkipPos, nlh NotLoadHMM.                     *)
NewSeg(c) == [d |-> NilD, o |-> [al |-> c.al, nu |-> c.nu, an |-> c.an], st |-> {}, fr |-> <<>>,
              lnf |-> c.lnf, mtf |-> c.mtf, tf |-> c.tf, sep |-> c.sep, ns |-> c.ns, skp |-> c.skp, nlh |-> c.nlh]
DefCfg == [al |-> FALSE, nu |-> FALSE, an |-> FALSE, lnf |-> FALSE, mtf |-> 0, tf |-> 0, sep |-> <<>>,
           ns |-> FALSE, skp |-> FALSE, nlh |-> FALSE]

G0 == [segs |-> <<>>, tl |-> TRUE, mod |-> 1, memo |-> NoFun]

Put(G, g, s) == [G EXCEPT !.segs = (g :> s) @@ @]
D_(G, g) == G.segs[g].d

(* Make the dictionary if there is none: also sets the defaults, and loads   *)
(* the built-in model.                                                      *)
Made(G, g) ==
  LET s == G.segs[g] IN
  IF ~s.d.nil THEN G
  ELSE [Put(G, g, [s EXCEPT !.d = NewD, !.mtf = IF @ = 0 THEN 8 ELSE @, !.tf = IF @ = 0 THEN 8 ELSE @])
        EXCEPT !.mod = IF s.nlh THEN @ ELSE 1]

----------------------------------------------------------------------------
(* Loading.  nums: what the frequency texts mean, [t, v] with v in quarters; *)
(* texts that are not there are no finite numbers.                          *)
NumOf(nums, t) == LET k == {i \in Idx(nums) : nums[i].t = t}
                  IN IF k = {} THEN -1 ELSE nums[CHOOSE i \in k : TRUE].v

(* frequency of a line with n fields, 0 if the line is skipped *)
SizeOf(s, n, t, ft, nums) ==
  LET f == IF n < 2 THEN (IF s.lnf THEN s.tf ELSE -1) ELSE NumOf(nums, ft)
  IN IF n = 0 \/ f <= 0 \/ f < s.mtf THEN 0
     ELSE IF Len(t) < 2 THEN 8 ELSE f

(* a line: n number of fields, t word, ft frequency text, p part of speech   *)
AddLine(s, l, nums, tl) ==
  LET f == SizeOf(s, l.n, l.t, l.ft, nums)
  IN IF f = 0 THEN s ELSE [s EXCEPT !.d = AddD(@, l.t, s.o, tl, f, l.p)]
AddLines(s, ls, nums, tl) == FoldLeft(LAMBDA a, l : AddLine(a, l, nums, tl), s, ls)

Nth(s, k) == IF k <= Len(s) THEN s[k] ELSE <<>>
LinesOf(t) == SplitBy(t, IsNL)

(* LoadDictStr: fields split by the separator and a blank *)
StrLine(l, sep, sp) ==
  LET ps == SplitAt(l, Append(sep, sp))
  IN [n |-> Len(ps), t |-> TrimSp(ps[1]), ft |-> TrimSp(Nth(ps, 2)), p |-> TrimSp(Nth(ps, 3))]
StrLines(t, sep, sp) == LET ls == LinesOf(t) IN [k \in Idx(ls) |-> StrLine(ls[k], sep, sp)]

(* Reader without a separator: blank-separated fields, read as runes *)
ScanLine(l) ==
  LET ps == Fields(Runes(l)) IN [n |-> Len(ps), t |-> Nth(ps, 1), ft |-> Nth(ps, 2), p |-> Nth(ps, 3)]
(* Reader with a separator *)
SepLine(l, sep, sp) ==
  LET ps == SplitAt(l, Append(sep, sp))
  IN [n |-> Len(ps), t |-> TrimR(ps[1], IsCR), ft |-> TrimSp(Nth(ps, 2)), p |-> TrimSp(Nth(ps, 3))]
(* a line feed at the end starts no other line *)
FileLines(t) == LET ls == LinesOf(t) IN IF Last(ls) = <<>> THEN Front(ls) ELSE ls
ReadLines(t, sep, sp) ==
  LET ls == FileLines(t)
  IN [k \in Idx(ls) |-> IF sep = <<>> THEN ScanLine(ls[k]) ELSE SepLine(ls[k], sep, sp)]

----------------------------------------------------------------------------
(* Names of dictionaries, separated by commas with or without a blank, and   *)
(* the paths they stand for.                                                *)
NamesOf(t, cm, sp) ==
  LET a == SplitAt(t, <<cm, sp>>) IN IF a # <<t>> THEN a ELSE SplitAt(t, <<cm>>)
PathsOf(n, sp, jp, zht, zhs) ==
  LET s == IF n = <<sp>> THEN " " ELSE IF \A c \in Ran(n) : CT[c].s # "" THEN Str(n) ELSE "?" IN
  CASE s \in {"ja", "jp"} -> <<jp>>
    [] s = "zh" -> <<zht, zhs>>
    [] s = "zh_s" -> <<zhs>>
    [] s = "zh_t" -> <<zht>>
    [] s \in {"en", "ko", "ti", "", " "} -> <<>>
    [] OTHER -> <<n>>
(* the files that a load by names reads.  e.lib: the files there are, [nm, txt]; *)
(* e.none: no names are given, which means the simplified and the traditional *)
FileOf(lib, nm) == LET k == {i \in Idx(lib) : lib[i].nm = nm}
                   IN IF k = {} THEN [ok |-> FALSE, txt |-> <<>>]
                      ELSE [ok |-> TRUE, txt |-> lib[CHOOSE i \in k : TRUE].txt]
NamedFiles(e, sp) ==
  LET ns == NamesOf(e.t, e.cm, sp)
      ps == IF e.none THEN <<e.zhs, e.zht>>
            ELSE Concat([k \in Idx(ns) |-> PathsOf(ns[k], sp, e.jp, e.zht, e.zhs)])
  IN [k \in Idx(ps) |-> FileOf(e.lib, ps[k])]
(* the same for stop words: only the first name may be "zh" *)
NamedStops(e, sp) ==
  LET ns == SplitAt(e.t, <<e.cm, sp>>)
      ps == IF e.none THEN <<e.sw>>
            ELSE [k \in Idx(ns) |-> IF k = 1 /\ \A c \in Ran(ns[1]) : CT[c].s # "" /\ Str(ns[1]) = "zh" THEN e.stk ELSE ns[k]]
  IN [k \in Idx(ps) |-> FileOf(e.lib, ps[k])]
FilesOf(e, sp) == CASE e.how = "file" -> e.files
                    [] e.how = "names" -> NamedFiles(e, sp)
                    [] e.how = "stops" -> NamedStops(e, sp)

CalcS(s) == [s EXCEPT !.d = CalcD(@)]
LoadS(s, e, tl, sp) ==
  CASE e.how = "map" -> CalcS(AddLines(s, e.items, e.nums, tl))
    [] e.how = "real" -> LET r == AddLines(s, e.items, e.nums, tl)   \* of a large source the lines that matter, and its total
                         IN CalcS([r EXCEPT !.d.tot = e.tot])
    [] e.how = "str" -> CalcS(AddLines(s, StrLines(e.txt, s.sep, sp), e.nums, tl))
    [] e.how = "reader" -> AddLines(s, ReadLines(e.txt, s.sep, sp), e.nums, tl)
    [] e.how \in {"file", "names"} -> \* files: [ok, txt]; reading stops at one that cannot be read
         LET fs == FilesOf(e, sp)
             bad == {k \in Idx(fs) : ~fs[k].ok}
             n == IF bad = {} THEN Len(fs) ELSE Min(bad) - 1
             r == FoldLeft(LAMBDA a, k : AddLines(a, ReadLines(fs[k].txt, a.sep, sp), e.nums, tl),
                           s, [k \in 1..n |-> k])
         IN IF bad = {} THEN CalcS(r) ELSE r
FilesErr(e, sp) == LET fs == FilesOf(e, sp) IN \E k \in Idx(fs) : ~fs[k].ok
(* a reader that fails after its lines *)
LoadErr(e, sp) == \/ e.how \in {"file", "names"} /\ FilesErr(e, sp)
                  \/ e.how = "reader" /\ "bad" \in DOMAIN e

----------------------------------------------------------------------------
(* Stop words: files add their non-empty lines (without the carriage return  *)
(* of a CR LF), strings their trimmed non-empty lines.                      *)
StopFileLines(t) ==
  LET ls == FileLines(t)
      cut == [k \in Idx(ls) |-> IF ls[k] # <<>> /\ IsCR(Last(ls[k])) THEN Front(ls[k]) ELSE ls[k]]
  IN Ran(cut) \ {<<>>}
StopStrLines(t) == LET ls == LinesOf(t) IN Ran([k \in Idx(ls) |-> TrimSp(ls[k])]) \ {<<>>}

StopFiles(fs) ==
  LET bad == {k \in Idx(fs) : ~fs[k].ok}
      n == IF bad = {} THEN Len(fs) ELSE Min(bad) - 1
  IN UNION {StopFileLines(fs[k].txt) : k \in 1..n}

(* the median of the IDFs added *)
Median(fr) == IF fr = <<>> THEN 0 ELSE SortSeq(fr, <)[Len(fr) \div 2 + 1]

----------------------------------------------------------------------------
Mutators == {"new", "opts", "tolower", "load", "empty", "calc", "add", "addf", "readd", "rem",
             "addstop", "stoparr", "stopstr", "stopfile", "rmstop", "emptystop", "model", "hmmmod", "idfadd"}

AddTo(G, e) == LET H == Made(G, e.g)
                   s == H.segs[e.g]
               IN Put(H, e.g, [s EXCEPT !.d = AddD(@, e.t, s.o, G.tl, e.f, e.p)])
Upd(G, g, F(_)) == Put(G, g, F(G.segs[g]))

(* effect on everything but the memo *)
Eff(G, e, sp) ==
  CASE e.op = "new" -> Put(G, e.g, NewSeg(e.c))
    [] e.op = "opts" -> Upd(G, e.g, LAMBDA s : [s EXCEPT !.o = [al |-> e.c.al, nu |-> e.c.nu, an |-> e.c.an],
                                                          !.ns = e.c.ns, !.skp = e.c.skp, !.lnf = e.c.lnf, !.sep = e.c.sep])
    [] e.op = "tolower" -> [G EXCEPT !.tl = e.v]
    [] e.op = "load" -> LET H == Made(G, e.g) IN Put(H, e.g, LoadS(H.segs[e.g], e, G.tl, sp))
    [] e.op = "empty" -> Upd(G, e.g, LAMBDA s : [s EXCEPT !.d = NilD])
    [] e.op = "calc" -> Upd(G, e.g, CalcS)
    [] e.op = "add" -> AddTo(G, e)
    [] e.op = "addf" -> Upd(AddTo(G, e), e.g, CalcS)
    [] e.op = "readd" -> Upd(G, e.g, LAMBDA s :
          IF s.d.nil \/ RemErr(s.d, e.t, s.o, G.tl) THEN s
          ELSE [s EXCEPT !.d = AddD(RemD(@, e.t, s.o, G.tl), e.t, s.o, G.tl, e.f, e.p)])
    [] e.op = "rem" -> Upd(G, e.g, LAMBDA s : [s EXCEPT !.d = RemD(@, e.t, s.o, G.tl)])
    [] e.op = "addstop" -> Upd(G, e.g, LAMBDA s : [s EXCEPT !.st = @ \cup {e.t}])
    [] e.op = "stoparr" -> Upd(G, e.g, LAMBDA s : [s EXCEPT !.st = @ \cup Ran(e.l)])
    [] e.op = "stopstr" -> Upd(G, e.g, LAMBDA s : [s EXCEPT !.st = @ \cup StopStrLines(e.txt)])
    [] e.op = "stopfile" -> Upd(G, e.g, LAMBDA s : [s EXCEPT !.st = @ \cup StopFiles(FilesOf(e, sp))])
    [] e.op = "rmstop" -> Upd(G, e.g, LAMBDA s : [s EXCEPT !.st = @ \ {e.t}])
    [] e.op = "emptystop" -> Upd(G, e.g, LAMBDA s : [s EXCEPT !.st = {}])
    [] e.op \in {"model", "hmmmod"} -> [G EXCEPT !.mod = e.m]
    [] e.op = "idfadd" -> Upd(AddTo(G, e), e.g, LAMBDA s : [s EXCEPT !.fr = Append(@, e.f)])
    [] OTHER -> G

(* Results of calls are remembered under their key until something the call  *)
(* may depend on changes: its own segmenter, the model or the switch.        *)
Apply(G, e, sp) ==
  LET H == Eff(G, e, sp) IN
  IF e.op = "call" THEN [G EXCEPT !.memo = IF <<e.g, e.key>> \in DOMAIN @ THEN @ ELSE (<<e.g, e.key>> :> e.res) @@ @]
  ELSE IF e.op \notin Mutators THEN G
  ELSE IF G.memo = NoFun THEN H
  ELSE IF e.op = "tolower" \/ H.mod # G.mod THEN [H EXCEPT !.memo = NoFun]
  ELSE IF e.op \in {"model", "hmmmod"} THEN H
  ELSE [H EXCEPT !.memo = [k \in {x \in DOMAIN @ : x[1] # e.g} |-> @[k]]]

(* Whether a call that edits returns an error *)
ErrOf(G, e, sp) ==
  CASE e.op \in {"add", "addf", "idfadd"} -> AddErr(e.t, G.segs[e.g].o, G.tl)
    [] e.op = "readd" -> LET s == G.segs[e.g] IN s.d.nil \/ RemErr(s.d, e.t, s.o, G.tl)
    [] e.op = "rem" -> LET s == G.segs[e.g] IN s.d.nil \/ RemErr(s.d, e.t, s.o, G.tl)
    [] e.op = "load" -> LoadErr(e, sp)
    [] e.op = "stopfile" -> FilesErr(e, sp)
    [] OTHER -> FALSE

GInv(G) == \A g \in DOMAIN G.segs : DictInv(G.segs[g].d)
====
