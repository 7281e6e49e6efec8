---- MODULE MCLife ----
(***************************************************************************)
(* All histories of at most L calls out of an alphabet of calls.  Checked:   *)
(* what each history says of one word alone is what the specification's      *)
(* state says of it, whatever the other words do.  With PRINT every           *)
(* transition is printed with one history that leads to it, to be replayed    *)
(* into the code.                                                           *)
(***************************************************************************)
EXTENDS Gse, Json

CONSTANTS FILE, L, PRINT
Al == JsonDeserialize(FILE)
TrCT == Al.chars
TrXP == Al.xp
SP == Al.sp
Evs == Al.evs

VARIABLES G, hist
vars == <<G, hist>>

Start == FoldLeft(LAMBDA g, e : Apply(g, e, SP), G0, Al.pre)
Init == G = Start /\ hist = <<>>
Call(a) ==
  /\ Len(hist) < L
  /\ G' = Apply(G, Evs[a], SP)
  /\ hist' = Append(hist, a)
  /\ PRINT => PrintT(<<"H", hist'>>)
Next == \E a \in Idx(Evs) : Call(a)
Spec == Init /\ [][Next]_vars
View == <<G.segs, G.tl, G.mod>>

----------------------------------------------------------------------------
S1 == G.segs[1]
Txt(e) == AtomText(e.t, S1.o, G.tl)
Absent == [ok |-> FALSE, f |-> 0, p |-> <<>>]
FreshLoad(e) == LoadS([NewSeg(DefCfg) EXCEPT !.d = NewD, !.mtf = 8, !.tf = 8], e, G.tl, SP).d

(* the word w alone: r what is known of it, n additions that took effect     *)
One(h, w) ==
  FoldLeft(LAMBDA a, k :
     LET e == Evs[k] IN
     IF e.g # 1 THEN a
     ELSE CASE e.op \in {"add", "addf"} -> IF Txt(e) = w /\ ~BadWord(w) /\ ~a.r.ok
                                           THEN [r |-> [ok |-> TRUE, f |-> e.f, p |-> e.p], n |-> a.n + 1] ELSE a
            [] e.op = "readd" -> IF Txt(e) = w /\ a.r.ok
                                 THEN [r |-> [ok |-> TRUE, f |-> e.f, p |-> e.p], n |-> a.n + 1] ELSE a
            [] e.op = "rem" -> IF Txt(e) = w THEN [a EXCEPT !.r = Absent] ELSE a
            [] e.op = "empty" -> [r |-> Absent, n |-> 0]
            [] e.op = "load" -> LET q == FindD(FreshLoad(e), w) IN
                 IF Has(FreshLoad(e), w) /\ ~a.r.ok THEN [r |-> [ok |-> TRUE, f |-> q.f, p |-> q.p], n |-> a.n + 1] ELSE a
            [] OTHER -> a,
   [r |-> Absent, n |-> 0], h)

Ws == {AtomText(Al.words[k], S1.o, G.tl) : k \in Idx(Al.words)} \ {<<>>}
WordByWord ==
  \A w \in Ws : LET q == One(hist, w).r  D == S1.d IN
     /\ q.ok = Has(D, w)
     /\ q.ok => FindD(D, w) = [f |-> q.f, p |-> q.p, ok |-> TRUE]
     /\ ~q.ok => FindD(D, w) \in {NotFound, [f |-> 0, p |-> <<>>, ok |-> TRUE]}

(* stop words, one by one *)
StopOne(h, g, w) ==
  FoldLeft(LAMBDA a, k :
     LET e == Evs[k] IN
     IF e.g # g THEN a
     ELSE CASE e.op = "addstop" -> a \/ e.t = w
            [] e.op = "stoparr" -> a \/ w \in Ran(e.l)
            [] e.op = "stopstr" -> a \/ w \in StopStrLines(e.txt)
            [] e.op = "stopfile" -> a \/ w \in StopFiles(e.files)
            [] e.op = "rmstop" -> a /\ e.t # w
            [] e.op = "emptystop" -> FALSE
            [] OTHER -> a, FALSE, h)
StopsOneByOne ==
  \A g \in DOMAIN G.segs : \A k \in Idx(Al.words) :
     (hist # <<>> /\ \A q \in Idx(hist) : Evs[hist[q]].op # "call") /\ Al.pre[Len(Al.pre)].op = "new" =>
       (Al.words[k] \in G.segs[g].st) = StopOne(hist, g, Al.words[k])

Inv == GInv(G) /\ WordByWord /\ StopsOneByOne
InvStops == GInv(G) /\ StopsOneByOne

(* a call on one segmenter leaves the others, and a query leaves all          *)
Apart == [][\A g \in DOMAIN G.segs :
              Evs[hist'[Len(hist')]].g # g => G'.segs[g] = G.segs[g]]_vars
QueriesKeep == [][Evs[hist'[Len(hist')]].op \notin Mutators => G'.segs = G.segs /\ G'.mod = G.mod]_vars
====
