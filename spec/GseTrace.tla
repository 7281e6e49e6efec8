---- MODULE GseTrace ----
(***************************************************************************)
(* Trace validation: the calls recorded from the code, session by session,   *)
(* are steps of the specification, and each result must be one that it       *)
(* allows.  FOCUS is the property whose clauses are judged.                  *)
(***************************************************************************)
EXTENDS Gse, PosHmm, Json

CONSTANTS FOCUS, FILE

Tr == JsonDeserialize(FILE)
TrCT == Tr.chars
TrXP == Tr.xp
TrEng == Tr.eng
TrPM == Tr.pm
SP == Tr.sp                          \* the blank
SL == Tr.sl                          \* the slash
Sess == Tr.sessions

VARIABLES sid, i, G, st              \* st: run, rej, done
vars == <<sid, i, G, st>>

C(id) == FOCUS = id
CC(S) == FOCUS \in S
Ev == Sess[sid].ev[i]

----------------------------------------------------------------------------
Dq(e) == G'.segs[e.g].d              \* the state after the call is judged; queries leave it
Oq(e) == G'.segs[e.g].o
Stq(e) == G'.segs[e.g].st
Tlq == G'.tl
Mod == Tr.models[G'.mod]
RT(t) == RuneText(t, Tlq)
RunesAll(ps) == [k \in Idx(ps) |-> Runes(ps[k])]
TP(l) == [k \in Idx(l) |-> [t |-> l[k].t, p |-> l[k].p]]

JSeg(e) ==
  LET D == Dq(e)  o == Oq(e)
      x == AtomText(e.t, o, Tlq)
      ps == AtomPos(e.t, o)
      ts == Texts(e.r)
  IN /\ CC({"C01", "C14"}) /\ ~D.nil =>
          /\ Concat(ts) = x
          /\ \A k \in Idx(e.r) : /\ e.r[k].t # <<>>
                                 /\ e.r[k].s = (IF k = 1 THEN 0 ELSE e.r[k-1].e)
                                 /\ e.r[k].e = e.r[k].s + NBytes(e.r[k].t)
          /\ (IF e.r = <<>> THEN NBytes(e.t) = 0 ELSE Last(e.r).e = NBytes(e.t))
     /\ C("C02") /\ ~D.nil => CheapestSeg(D, x, ps, ts)
     /\ C("C03") => \A k \in Idx(e.r) :
          LET w == e.r[k].t IN
          /\ IF Has(D, w) THEN e.r[k].f = FreqD(D, w) /\ e.r[k].p = PosD(D, w)
             ELSE e.r[k].f = 4 /\ e.r[k].p = XP
          /\ \A q \in Idx(e.r[k].q) : e.r[k].q[q].b = (Bytes(e.r[k].q[q].t) = Bytes(w))

JoinTP(l) == FoldLeft(LAMBDA a, x : a \o x.t \o <<SL>> \o x.p \o <<SP>>, <<>>, l)

JOut(e) ==                           \* the plain outputs agree with the segments
  C("C03") =>
    LET l == TP(e.r)  ts == Texts(e.r) IN
    /\ e.sl = ts /\ e.slice = ts /\ e.cut = ts
    /\ e.ps = l /\ e.pos = l
    /\ Bytes(e.st) = Bytes(JoinTP(l)) /\ Bytes(e.str) = Bytes(JoinTP(l))

JSearch(e) ==
  C("C11") =>
    LET D == Dq(e)
        l == FoldLeft(LAMBDA a, n : a \o Expand(D, n), <<>>, e.trees)
        ts == Texts(l)
    IN /\ e.plain = e.mode               \* the segments themselves are the same
       /\ Texts(e.trees) = Texts(e.mode)
       /\ \A k \in Idx(e.trees) : TreeOK(D, D.live, e.trees[k])
       /\ e.sl = ts /\ e.slice = ts /\ e.cs = ts
       /\ e.ps = l /\ e.pos = l
       /\ Bytes(e.st) = Bytes(JoinTP(l)) /\ Bytes(e.str) = Bytes(JoinTP(l))

JAtoms(e) ==
  C("C04") => LET o == IF e.def THEN DefOpts ELSE Oq(e) IN
    IsAtoms(e.t, o, Tlq, e.r) /\ e.r = Atoms(e.t, o, Tlq)

JLoss(e) ==                          \* a cut that loses nothing; low: it lowers
  C("C05") \/ (C("C14") /\ e.low) =>
    /\ Runes(Concat(e.r)) = RuneText(e.t, e.low /\ Tlq)
    /\ \A k \in Idx(e.r) : e.r[k] # <<>>

JDagNo(e) ==
  LET x == RT(e.t) IN
  /\ C("C06") => NoHmmOK(Dq(e), x, e.r)
  /\ C("C15") /\ e.whole => e.r = <<x>>
JDagH(e) ==
  C("C07") => LET HM(a, b) == IF \E q \in Idx(e.hm[a]) : e.hm[a][q] = b
                             THEN SubSeq(e.r, a, b - 1) ELSE << <<>> >>
              IN HmmRouteOK(Dq(e), RT(e.t), e.r, HM)
JHmm(e) == C("C08") => HmmCutOK(Mod, Runes(e.t), RunesAll(e.r), e.ck, e.sk)

(* Viterbi itself: lens are the lengths of the pieces, lg the negative log    *)
(* of the probability in 1/4096 (-1: too large)                             *)
JVit(e) ==
  C("C08") => LET x == Runes(e.t)
                  b == FoldLeft(LAMBDA a, n : Append(a, Last(a) + n), <<0>>, e.lens)
                  ps == [k \in Idx(e.lens) |-> SubSeq(x, b[k] + 1, b[k+1])]
                  o == VitBest(Mod, x)
              IN /\ VitOK(Mod, x, ps)
                 /\ o < Cap => Abs(e.lg - o) <= 2 * Len(x) + 2

JCutAll(e) == C("C09") => e.r = CutAllOf(Dq(e), RT(e.t))
JCutSearch(e) == C("C10") => e.r = SearchOf(Dq(e), e.words)

JFind(e) ==
  CC({"C12", "C13", "C14", "C22"}) =>
    LET q == FindD(Dq(e), e.t) IN e.f = q.f /\ e.p = q.p /\ e.ok = q.ok
JValue(e) ==
  C("C12") => LET D == Dq(e) IN
     IF Has(D, e.t) THEN e.ok /\ e.v = D.live[e.t] - 1 ELSE ~e.ok
(* the words that the atoms of the text begin with, from the shortest on *)
JLookup(e) ==
  C("C12") =>
    LET D == Dq(e)
        as == Atoms(e.t, Oq(e), Tlq)
        ws == SelectSeq([k \in Idx(as) |-> Concat(SubSeq(as, 1, k))], LAMBDA w : Has(D, w))
    IN e.r = [k \in Idx(ws) |-> [t |-> ws[k], f |-> FreqD(D, ws[k]), p |-> PosD(D, ws[k])]]
JStats(e) ==
  CC({"C12", "C13", "C14", "C22"}) =>
    LET D == Dq(e) IN /\ e.n = Len(D.toks) /\ e.tot = D.tot
                      /\ CC({"C12", "C14"}) => e.mx = D.mx
JDump(e) ==
  CC({"C12", "C13", "C14"}) =>
    LET D == Dq(e) IN e.r = [k \in Idx(D.toks) |-> [t |-> D.toks[k].w, f |-> D.toks[k].f, p |-> D.toks[k].p]]
JSame(e) == C("C13") => \A k \in Idx(e.gs) : G'.segs[e.gs[k]].d.live = G'.segs[e.gs[1]].d.live

(* Suggested frequencies, in quarters: floor v may be the integer part of 2^l  *)
SugTol(n) == 3 * n + 8
FloorMayLE(u, l, n) == IF u < 0 THEN FALSE ELSE l = Zero \/ Lg(u + 1) >= l - SugTol(n)
FloorMayGE(u, l, n) == IF u <= 0 THEN TRUE ELSE l # Zero /\ Lg(u) <= l + SugTol(n)
JSuggest(e) ==
  C("C15") =>
    LET D == Dq(e)
        n == Len(e.parts)
        l == LgProduct(D, e.parts)
        q == FindD(D, Concat(e.ws))
    IN IF Len(e.ws) = 1
       THEN LET cur == IF q.ok THEN q.f ELSE 4 IN
            IF e.r > cur THEN e.r % 4 = 0 /\ IsFloor(e.r \div 4 - 1, l, n)
            ELSE e.r = cur /\ (FloorMayLE(cur \div 4 - 1, l, n))
       ELSE LET cur == IF q.ok THEN q.f ELSE 0 IN
            IF e.r < cur THEN e.r % 4 = 0 /\ IsFloor(e.r \div 4, l, n)
            ELSE e.r = cur /\ FloorMayGE((cur + 3) \div 4, l, n)

JIsStop(e) == C("C16") => e.r = (e.t \in Stq(e))
JStopF(e) == C("C16") => e.r = StopOf(e.l, Stq(e))

JFilter(e) ==
  C("C17") =>
    CASE e.fn = "symbol" -> e.r = FilterSymbolOf(e.t)
      [] e.fn = "emoji" -> e.r = FilterEmojiOf(e.t)
      [] e.fn = "lang" -> e.r = FilterLangOf(e.t, e.lang)
      [] e.fn = "html" -> e.r = FilterHtmlOf(e.t)
      [] e.fn = "rangetext" -> e.r = RangeTextOf(e.t, SP)
      [] e.fn = "splitnums" -> e.r = JoinWith(SplitNumOf(e.t), <<SP>>)
JFilterL(e) ==
  C("C17") =>
    CASE e.fn = "splitnum" -> e.r = SplitNumOf(e.t)
      [] e.fn = "range" -> e.r = RangeOf(e.t)
(* trimmers of lists; after: the list given, after the call                  *)
JTrim(e) ==
  C("C17") =>
    /\ e.after = e.l
    /\ LET s == Stq(e)  ns == G'.segs[e.g].ns IN
       CASE e.fn = "trim" -> e.r = TrimOf(e.l, s, ns)
         [] e.fn = "trimsymbol" -> e.r = TrimSymbolOf(e.l)
         [] e.fn = "trimpunct" -> e.r = TrimPunctOf(e.l)
         [] e.fn = "trimpos" -> e.r = TrimPosOf(e.l, s, ns)
         [] e.fn = "trimpospunct" -> e.r = TrimPosPunctOf(e.l, s, ns)
         [] e.fn = "trimwithpos" -> e.r = TrimWithPosOf(e.l, e.ps)
         [] e.fn = "ptrim" -> e.r = TrimPosOf(e.l, s, ns)
         [] e.fn = "ptrimpunct" -> e.r = TrimPosPunctOf(e.l, {}, TRUE)
         [] e.fn = "ptrimwithpos" -> e.r = TrimWithPosOf(e.l, e.ps)

(* Composite cuts; cut (or pos): what Cut (or Pos) gives for in               *)
JComp(e) ==
  /\ C("C16") /\ e.fn = "cutstop" => e.r = StopOf(e.cut, Stq(e))
  /\ C("C18") =>
    LET s == Stq(e)  ns == G'.segs[e.g].ns  skp == G'.segs[e.g].skp IN
    CASE e.fn = "cutstop" -> e.r = StopOf(e.cut, s)
      [] e.fn = "cuttrim" -> e.r = TrimOf(e.cut, s, ns)
      [] e.fn = "cuthtml" -> e.in = FilterHtmlOf(e.t) /\ e.r = TrimSymbolOf(e.cut)
      [] e.fn = "cuthtmls" -> e.in = FilterHtmlOf(e.t) /\ Bytes(e.rs) = Bytes(JoinWith(TrimSymbolOf(e.cut), <<SP>>))
      [] e.fn = "cuturl" -> e.in = (IF e.num THEN e.t ELSE JoinWith(SplitNumOf(e.t), <<SP>>))
                            /\ e.r = TrimSymbolOf(e.cut)
      [] e.fn = "cuturls" -> e.in = (IF e.num THEN e.t ELSE JoinWith(SplitNumOf(e.t), <<SP>>))
                             /\ Bytes(e.rs) = Bytes(JoinWith(TrimSymbolOf(e.cut), <<SP>>))
      [] e.fn = "postrim" -> e.r = TrimPosOf(TrimWithPosOf(e.pos, e.ps), s, ns)
      [] e.fn = "postrimarr" -> e.r = Texts(TrimPosOf(TrimWithPosOf(e.pos, e.ps), s, ns))
      [] e.fn = "postrimstr" -> Bytes(e.rs) = Bytes(JoinWith(Texts(TrimPosOf(TrimWithPosOf(e.pos, e.ps), s, ns)), <<SP>>))
      [] e.fn = "cutstr" -> Bytes(e.rs) = Bytes(JoinWith(e.l, e.sep))
      [] e.fn = "posstr" -> Bytes(e.rs) = Bytes(JoinWith(
            [k \in Idx(e.pos) |-> IF skp THEN e.pos[k].t ELSE e.pos[k].t \o <<SL>> \o e.pos[k].p], e.sep))

(* by: offsets in characters; r: [t, n, s, e, f, p]; bytes: the text           *)
OccAt(b, w, s) == s >= 0 /\ s + Len(w) <= Len(b) /\ SubSeq(b, s + 1, s + Len(w)) = w
Occurs(b, w) == \E s \in 0..(Len(b) - Len(w)) : (w # <<>> => b[s + 1] = w[1]) /\ SubSeq(b, s + 1, s + Len(w)) = w
LowBytes(t) == IF Tlq THEN Bytes(ULow(t)) ELSE Bytes(t)
JAnalyze(e) ==
  C("C19") =>
    LET D == Dq(e)
        b == LowBytes(e.t)
    IN /\ Len(e.r) = Len(e.l)
       /\ \A k \in Idx(e.r) :
            LET x == e.r[k]  w == e.l[k]  q == FindD(D, w)  wb == Bytes(w) IN
            /\ x.n = k - 1 /\ x.t = w /\ x.f = q.f /\ x.p = q.p
            /\ IF e.t = <<>>
               THEN /\ x.s = (IF k = 1 THEN 0 ELSE e.r[k-1].e)
                    /\ x.e = x.s + (IF e.by THEN Len(w) ELSE NBytes(w))
               ELSE (w # <<>> /\ Occurs(b, wb)) => x.e = x.s + Len(wb) /\ OccAt(b, wb, x.s)
JOccs(e) ==                          \* r: [t, at] for every piece with places
  C("C19") =>
    LET b == Bytes(e.t) IN
    /\ \A k \in Idx(e.r) : /\ e.r[k].t \in Ran(e.l)
                           /\ \A q \in Idx(e.r[k].at) : OccAt(b, Bytes(e.r[k].t), e.r[k].at[q])
    /\ \A k \in Idx(e.l) : e.l[k] # <<>> /\ Occurs(b, Bytes(e.l[k])) =>
         \E q \in Idx(e.r) : e.r[q].t = e.l[k] /\ e.r[q].at # <<>>

JPosCut(e) ==
  LET t == Runes(e.t)  D == Dq(e) IN
  /\ C("C20") => PosCutOK(D, t, e.r, FALSE) /\ PosCutOK(D, t, e.h, TRUE) /\ PosHmmOK(D, t, e.r, e.h)
  /\ C("C29") => PosDetailOK(D, t, e.r, e.h)
  /\ C("C21") => \/ PosRouteOK(D, t, e.r)
                 \/ PosRawOK(D, t, e.r) /\ PrintT(<<"KNOWN", "pos-raw-frequency", sid, i>>)

JTags(e) ==
  C("C22") => LET I == G'.segs[e.ig]
                  Idf(w) == LET f == FreqD(I.d, w) IN IF f > 0 THEN f ELSE Median(I.fr)
              IN TagsOK(e.cut, Stq([g |-> e.sg]), Idf, e.k, e.r)
JRank(e) ==
  C("C23") => /\ \A q \in Idx(e.rr) : e.rr[q] = e.rr[1]
              /\ RanksOK(e.pairs, Ran(e.allow), e.k, e.rr[1])

JPaths(e) ==
  C("C28") =>
    LET names == NamesOf(e.t, e.cm, SP)
        F(n) == PathsOf(n, SP, e.jp, e.zht, e.zhs)
    IN e.r = Concat([k \in Idx(names) |-> F(names[k])])

JCall(e) ==                          \* a call gives what it gave before
  CC({"C24", "C27"}) => G'.memo[<<e.g, e.key>>] = e.res
JKept(e) == C("C27") => e.a = e.b

JErr(e) ==
  /\ C("C12") /\ e.op \in {"add", "addf", "readd", "rem"} => e.err = ErrOf(G, e, SP)
  /\ C("C14") /\ e.op = "load" => e.err = ErrOf(G, e, SP)

Judge(e) ==
  CASE e.op \in {"panic", "hang"} -> FALSE
    [] e.op = "seg" -> JSeg(e)
    [] e.op = "out" -> JOut(e)
    [] e.op = "search" -> JSearch(e)
    [] e.op = "atoms" -> JAtoms(e)
    [] e.op = "loss" -> JLoss(e)
    [] e.op = "dagno" -> JDagNo(e)
    [] e.op = "dagh" -> JDagH(e)
    [] e.op \in {"hmm", "hmmmod"} -> JHmm(e)
    [] e.op = "vit" -> JVit(e)
    [] e.op = "cutall" -> JCutAll(e)
    [] e.op = "cutsearch" -> JCutSearch(e)
    [] e.op = "find" -> JFind(e)
    [] e.op = "value" -> JValue(e)
    [] e.op = "lookup" -> JLookup(e)
    [] e.op = "stats" -> JStats(e)
    [] e.op = "dump" -> JDump(e)
    [] e.op = "same" -> JSame(e)
    [] e.op = "suggest" -> JSuggest(e)
    [] e.op = "isstop" -> JIsStop(e)
    [] e.op = "stopf" -> JStopF(e)
    [] e.op = "filter" -> JFilter(e)
    [] e.op = "filterl" -> JFilterL(e)
    [] e.op = "trim" -> JTrim(e)
    [] e.op = "comp" -> JComp(e)
    [] e.op = "analyze" -> JAnalyze(e)
    [] e.op = "occs" -> JOccs(e)
    [] e.op = "poscut" -> JPosCut(e)
    [] e.op = "tags" -> JTags(e)
    [] e.op = "rank" -> JRank(e)
    [] e.op = "paths" -> JPaths(e)
    [] e.op = "call" -> JCall(e)
    [] e.op = "kept" -> JKept(e)
    [] e.op \in Mutators -> JErr(e)

----------------------------------------------------------------------------
Init == sid \in Idx(Sess) /\ i = 1 /\ G = G0 /\ st = "run"

Step ==
  /\ st = "run" /\ i <= Len(Sess[sid].ev)
  /\ UNCHANGED sid
  /\ G' = Apply(G, Ev, SP)
  /\ IF Judge(Ev)
     THEN i' = i + 1 /\ st' = "run"
     ELSE i' = i /\ st' = "rej" /\ PrintT(<<"REJECT", sid, i>>)
End ==
  /\ st = "run" /\ i = Len(Sess[sid].ev) + 1
  /\ st' = "done"
  /\ PrintT(<<"ACCEPT", sid>>)
  /\ UNCHANGED <<sid, i, G>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
====
