---- MODULE ServerTrace ----
(***************************************************************************)
(* Traces of clients of the server.  Every request takes effect at one       *)
(* moment between its start and its end: an add adds a word that is not       *)
(* there, an answer is a segmentation under the dictionary of that moment.    *)
(* TLC looks for moments that explain the trace.                            *)
(***************************************************************************)
EXTENDS Gse, Json

CONSTANTS FILE
Tr == JsonDeserialize(FILE)
TrCT == Tr.chars
TrXP == Tr.xp
SP == Tr.sp
Sess == Tr.sessions
Mod1 == Tr.models[1]

VARIABLES sid, i, G, pend, st
vars == <<sid, i, G, pend, st>>
D == G.segs[1].d
(* the order of the tokens shows nowhere *)
View == <<sid, i, pend, st, IF 1 \in DOMAIN G.segs
            THEN <<D.tot, [w \in DOMAIN D.live |-> <<D.toks[D.live[w]].f, D.toks[D.live[w]].p>>]>> ELSE <<>> >>

Call(c) == Sess[sid].calls[c]
Ev == Sess[sid].ev[i]

SegAnswer(E, c) ==
  LET o == DefOpts
      x == AtomText(c.t, o, TRUE)
      ps == AtomPos(c.t, o)
  IN /\ CheapestSeg(E, x, ps, Texts(c.r))
     /\ \A k \in Idx(c.r) : c.r[k].p = (IF Has(E, c.r[k].t) THEN PosD(E, c.r[k].t) ELSE XP)
CutAnswer(E, c) ==
  LET x == ULow(c.t)
      b == Bounds(c.w)
      HM(i1, j1) == LET ps == SubSeq(c.w, i1, j1 - 1)
                    IN IF HmmCutOK(Mod1, SubSeq(x, b[i1] + 1, b[j1]), ps, "han", "std") THEN ps ELSE << <<>> >>
  IN HmmRouteOK(E, x, c.w, HM)
Answer(g, c) == CASE c.k = "seg" -> SegAnswer(g.segs[1].d, c)
                  [] c.k = "cut" -> CutAnswer(g.segs[1].d, c)
                  [] OTHER -> FALSE
(* the pending requests that the dictionary explains are explained *)
Read(p, g) == [c \in DOMAIN p |-> IF p[c] \/ Call(c).k = "add" THEN p[c] ELSE Answer(g, Call(c))]

Init == sid \in Idx(Sess) /\ i = 1 /\ G = G0 /\ pend = [x \in {} |-> 0] /\ st = "run"
Running == st = "run" /\ i <= Len(Sess[sid].ev) /\ UNCHANGED sid
Build ==
  /\ Running /\ Ev.op \in Mutators
  /\ G' = Apply(G, Ev, SP)
  /\ i' = i + 1 /\ UNCHANGED <<pend, st>>
Start ==
  /\ Running /\ Ev.op = "inv"
  /\ pend' = Read((Ev.c :> FALSE) @@ pend, G)
  /\ i' = i + 1 /\ UNCHANGED <<G, st>>
(* An add takes effect: no earlier than the next end of a request asks for it, since every  *)
(* request pending now is then still pending, and has seen the dictionaries before it too.  *)
Take ==
  /\ Running /\ Ev.op = "ret" /\ ~pend[Ev.c]
  /\ \E c \in DOMAIN pend :
       /\ Call(c).k = "add" /\ ~pend[c]
       /\ G' = Apply(G, [op |-> "addf", g |-> 1, t |-> Call(c).t, f |-> Call(c).f, p |-> Call(c).p], SP)
       /\ pend' = Read([pend EXCEPT ![c] = TRUE], G')
  /\ UNCHANGED <<i, st>>
Return ==
  /\ Running /\ Ev.op = "ret"
  /\ pend[Ev.c] /\ Call(Ev.c).ok
  /\ pend' = [c \in DOMAIN pend \ {Ev.c} |-> pend[c]]
  /\ i' = i + 1 /\ UNCHANGED <<G, st>>
Broken ==
  /\ Running /\ Ev.op \in {"panic", "hang"}
  /\ PrintT(<<"REJECT", sid, i>>)
  /\ st' = "rej" /\ UNCHANGED <<i, G, pend>>
End ==
  /\ st = "run" /\ i = Len(Sess[sid].ev) + 1
  /\ PrintT(<<"ACCEPT", sid>>)
  /\ st' = "done" /\ UNCHANGED <<sid, i, G, pend>>
Next == Build \/ Start \/ Take \/ Return \/ Broken \/ End
Spec == Init /\ [][Next]_vars
====
