---- MODULE ModelTrace ----
(***************************************************************************)
(* Traces of goroutines that load models and cut with them.  A load takes    *)
(* effect at one moment between its start and its end; every run of Han of a  *)
(* cut is cut by one model that was the current one at some moment between    *)
(* the start and the end of the call.  TLC looks for moments that explain     *)
(* the trace.                                                              *)
(***************************************************************************)
EXTENDS Hmm, Json

CONSTANT FILE
Tr == JsonDeserialize(FILE)
TrCT == Tr.chars
Sess == Tr.sessions
Mods == Tr.models

VARIABLES sid, i, cur, pend, st
vars == <<sid, i, cur, pend, st>>

(* The runs of a cut: a sequence of sets of models, one set for each run, or   *)
(* <<{}>> if the pieces between the runs are wrong.                          *)
RunsOf(c) ==
  LET t == Runes(c.t)
      ps == [k \in Idx(c.r) |-> Runes(c.r[k])]
      Step(a, z) ==
        IF ~a.ok THEN a
        ELSE IF ~z[1]
        THEN IF a.i < Len(ps) /\ ps[a.i + 1] = SubSeq(t, z[2], z[3])
             THEN [a EXCEPT !.i = @ + 1] ELSE [a EXCEPT !.ok = FALSE]
        ELSE LET n == z[3] - z[2] + 1
                 ends == {j \in (a.i + 1)..Len(ps) : Len(Concat(SubSeq(ps, a.i + 1, j))) = n}
             IN IF ends = {} THEN [a EXCEPT !.ok = FALSE]
                ELSE LET j == Min(ends)
                         x == SubSeq(t, z[2], z[3])
                     IN [a EXCEPT !.i = j,
                                  !.s = Append(@, {m \in Idx(Mods) : VitOK(Mods[m], x, SubSeq(ps, a.i + 1, j))})]
      r == FoldLeft(Step, [i |-> 0, ok |-> TRUE, s |-> <<>>], Zones(t, 1, "han", "std"))
  IN IF r.ok /\ r.i = Len(ps) THEN r.s ELSE << {} >>

Ms == [s \in Idx(Sess) |-> [c \in Idx(Sess[s].calls) |-> IF Sess[s].calls[c].cut THEN RunsOf(Sess[s].calls[c]) ELSE <<>>]]

Call(c) == Sess[sid].calls[c]
(* The runs of the pending calls that the current model explains are explained *)
Read(p, m) == [c \in DOMAIN p |-> [p[c] EXCEPT !.left = {k \in @ : m \notin Ms[sid][c][k]}]]

Init == sid \in Idx(Sess) /\ i = 1 /\ cur = 1 /\ pend = [x \in {} |-> 0] /\ st = "run"
Ev == Sess[sid].ev[i]
Running == st = "run" /\ i <= Len(Sess[sid].ev) /\ UNCHANGED sid

Start ==
  /\ Running /\ Ev.op = "inv"
  /\ pend' = Read((Ev.c :> [lin |-> Call(Ev.c).m = 0, left |-> Idx(Ms[sid][Ev.c])]) @@ pend, cur)
  /\ i' = i + 1 /\ UNCHANGED <<cur, st>>
Take ==                              \* a load takes effect
  /\ Running
  /\ \E c \in DOMAIN pend :
       /\ ~pend[c].lin
       /\ cur' = Call(c).m
       /\ pend' = Read([pend EXCEPT ![c].lin = TRUE], cur')
  /\ UNCHANGED <<i, st>>
Return ==
  /\ Running /\ Ev.op = "ret"
  /\ pend[Ev.c].lin /\ pend[Ev.c].left = {}
  /\ pend' = [c \in DOMAIN pend \ {Ev.c} |-> pend[c]]
  /\ i' = i + 1 /\ UNCHANGED <<cur, st>>
Broken ==                            \* a panic, or a call that hangs
  /\ Running /\ Ev.op \in {"panic", "hang"}
  /\ PrintT(<<"REJECT", sid, i>>)
  /\ st' = "rej" /\ UNCHANGED <<i, cur, pend>>
Other == /\ Running /\ Ev.op \notin {"inv", "ret", "panic", "hang"}
         /\ i' = i + 1 /\ UNCHANGED <<cur, pend, st>>
End ==
  /\ st = "run" /\ i = Len(Sess[sid].ev) + 1
  /\ PrintT(<<"ACCEPT", sid>>)
  /\ st' = "done" /\ UNCHANGED <<sid, i, cur, pend>>
Next == Other \/ Start \/ Take \/ Return \/ Broken \/ End
Spec == Init /\ [][Next]_vars
====
