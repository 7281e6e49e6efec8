---- MODULE PosHmm ----
(***************************************************************************)
(* The part-of-speech cut with HMM, piece by piece and tag by tag.           *)
(***************************************************************************)
EXTENDS PosCut, PosVit
(* The cut with HMM: the words of several characters on the route stay; each   *)
(* run of single characters between them is one character with its tag, or a    *)
(* word that the route did not take (its characters), or cut anew: Han by the   *)
(* model, numbers "m", the rest "eng" or "x".                               *)
RECURSIVE SameEnd(_, _)
SameEnd(f, k) == IF k = Len(f) \/ f[k+1] # f[k] THEN k ELSE SameEnd(f, k + 1)
RECURSIVE RunsBy(_, _)
RunsBy(f, k) ==                      \* maximal runs <<value, first, last>> of the sequence
  IF k > Len(f) THEN <<>>
  ELSE LET e == SameEnd(f, k) IN << <<f[k], k, e>> >> \o RunsBy(f, e + 1)

Within(ps, at, a, b) ==              \* the pieces at a..b of the text
  LET ks == SelectSeq(Ixs(ps), LAMBDA k : a <= at[k][1] /\ at[k][2] <= b)
  IN [i \in Idx(ks) |-> ps[ks[i]]]

PlainPieces(x, MTAG) ==                 \* the pieces of a run without Han
  LET zs == RunsBy([k \in Idx(x) |-> CT[x[k]].dg \/ CT[x[k]].s = "."], 1)
  IN [k \in Idx(zs) |-> LET w == SubSeq(x, zs[k][2], zs[k][3])
                        IN [t |-> w, p |-> IF zs[k][1] THEN MTAG
                                           ELSE IF \E q \in Idx(w) : CT[w[q]].an THEN ENG ELSE XP]]

SinglesOK(D, x, ps) ==               \* a run of single characters
  IF Len(x) = 1 \/ FreqD(D, x) > 0
  THEN ps = [k \in Idx(x) |-> [t |-> <<x[k]>>, p |-> TagPos(D, <<x[k]>>)]]
  ELSE LET zs == RunsBy([k \in Idx(x) |-> CT[x[k]].han], 1)
           at == PieceAt(ps)
       IN /\ Concat(Texts(ps)) = x
          /\ \A k \in Idx(ps) : \E i \in Idx(zs) : zs[i][2] <= at[k][1] /\ at[k][2] <= zs[i][3]
          /\ \A i \in Idx(zs) :
               LET w == SubSeq(x, zs[i][2], zs[i][3])
                   q == Within(ps, at, zs[i][2], zs[i][3])
               IN IF zs[i][1] THEN PosVitOK(w, q) ELSE q = PlainPieces(w, PM.m)

(* the route of a block, from the cut without HMM: <<is a word, first, last>>;    *)
(* letters and numbers that it joined are singles again                       *)
JoinedOrWord(D, p) == p.p = ENG /\ FreqD(D, p.t) > 0 /\ PosD(D, p.t) = ENG
UnitWord(D, p) == Len(p.t) > 1 /\ ~(AlnumText(p.t) /\ p.p = ENG)
RouteRuns(D, ps, at, z) ==           \* the words and the maximal runs of singles
  LET ks == SelectSeq(Ixs(ps), LAMBDA k : z[2] <= at[k][1] /\ at[k][2] <= z[3])
      Step(a, k) ==
        IF UnitWord(D, ps[k]) THEN Append(a, <<TRUE, at[k][1], at[k][2]>>)
        ELSE IF a # <<>> /\ ~Last(a)[1] THEN Append(Front(a), <<FALSE, Last(a)[2], at[k][2]>>)
        ELSE Append(a, <<FALSE, at[k][1], at[k][2]>>)
  IN FoldLeft(Step, <<>>, ks)

PosDetailOK(D, t, p0, p1) ==
  LET a0 == PieceAt(p0)
      a1 == PieceAt(p1)
      zs == PosZones(t, 1)
  IN \/ \E k \in Idx(p0) : Len(p0[k].t) > 1 /\ AlnumText(p0[k].t) /\ JoinedOrWord(D, p0[k])   \* its route does not show
     \/ \A i \in Idx(zs) : zs[i][1] =>
          LET rs == RouteRuns(D, p0, a0, zs[i]) IN
          \A r \in Idx(rs) :
            LET x == SubSeq(t, rs[r][2], rs[r][3])
                q == Within(p1, a1, rs[r][2], rs[r][3])
            IN IF rs[r][1] THEN q = <<[t |-> x, p |-> TagPos(D, x)]>> ELSE SinglesOK(D, x, q)
====
