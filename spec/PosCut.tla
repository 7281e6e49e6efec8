---- MODULE PosCut ----
(***************************************************************************)
(* The part-of-speech cut: blocks, tags, and the route inside a block.      *)
(* Pieces are records [t, p].                                               *)
(***************************************************************************)
EXTENDS Dag

CONSTANT ENG                         \* the tag "eng", as a text

InBlk(c) == CT[c].han \/ CT[c].an \/ CT[c].s \in {"+", "#", "&", ".", "_"}
CrLf(t, k) == k < Len(t) /\ IsCR(t[k]) /\ IsNL(t[k+1])

(* zones <<is a block, first, last>> of the text *)
RECURSIVE BlkEnd(_, _)
BlkEnd(t, k) == IF k = Len(t) \/ ~InBlk(t[k+1]) THEN k ELSE BlkEnd(t, k + 1)
RECURSIVE PosZones(_, _)
PosZones(t, k) ==
  IF k > Len(t) THEN <<>>
  ELSE LET e == IF InBlk(t[k]) THEN BlkEnd(t, k) ELSE IF CrLf(t, k) THEN k + 1 ELSE k
       IN << <<InBlk(t[k]), k, e>> >> \o PosZones(t, e + 1)

(* positions (first, last) of the pieces *)
PieceAt(ps) == LET b == Bounds(Texts(ps)) IN [k \in Idx(ps) |-> <<b[k] + 1, b[k+1]>>]

TagPos(D, w) == IF Has(D, w) THEN PosD(D, w) ELSE XP
(* one piece of a block, without HMM *)
BlockPiece(D, x) ==
  IF AlnumText(x.t) THEN \/ x.p = ENG
                         \/ Len(x.t) > 1 /\ FreqD(D, x.t) > 0 /\ x.p = PosD(D, x.t)
  ELSE IF Len(x.t) = 1 THEN x.p = TagPos(D, x.t)
  ELSE FreqD(D, x.t) > 0 /\ x.p = PosD(D, x.t)

PosStructOK(t, ps) ==
  /\ Concat(Texts(ps)) = t
  /\ \A k \in Idx(ps) : ps[k].t # <<>>
PosCutOK(D, t, ps, hmm) ==
  /\ PosStructOK(t, ps)
  /\ LET at == PieceAt(ps)
         zs == PosZones(t, 1)
         Of(z) == SelectSeq(Ixs(ps), LAMBDA k : z[2] <= at[k][1] /\ at[k][2] <= z[3])
     IN /\ \A k \in Idx(ps) : \E i \in Idx(zs) : zs[i][2] <= at[k][1] /\ at[k][2] <= zs[i][3]
        /\ \A i \in Idx(zs) :
             LET z == zs[i] IN
             IF z[1] THEN (hmm \/ LET o == Of(z) IN \A k \in Idx(o) : BlockPiece(D, ps[o[k]]))
             ELSE LET o == Of(z) IN Len(o) = 1 /\ ps[o[1]].p = XP

(* The words of several characters of the cut without HMM are there, with     *)
(* their tag, in the cut with HMM.                                          *)
PosHmmOK(D, t, p0, p1) ==
  LET a0 == PieceAt(p0)
      a1 == PieceAt(p1)
  IN \A k \in Idx(p0) :
       Len(p0[k].t) > 1 /\ ~AlnumText(p0[k].t) =>
         \E i \in Idx(p1) : a1[i] = a0[k] /\ p1[i].p = p0[k].p

----------------------------------------------------------------------------
(* The route inside each block: C(x, k, j) is the cost of a piece.           *)
RouteBest(D, x, C(_, _)) ==
  LET n == Len(x)
      Step(best, q) ==
        LET k == n + 1 - q IN Append(best, Min({AddC(best[n + 1 - j], C(k, j)) : j \in Ends(D, x, k)}))
  IN Last(FoldLeft(Step, <<0>>, [q \in 1..n |-> q]))

BlockPieces(t, ps, z) ==
  LET at == PieceAt(ps)
      ks == SelectSeq(Ixs(ps), LAMBDA k : z[2] <= at[k][1] /\ at[k][2] <= z[3])
  IN [i \in Idx(ks) |-> ps[ks[i]].t]

PosRouteOK(D, t, ps) ==              \* the most probable route
  LET zs == PosZones(t, 1) IN
  \A i \in Idx(zs) : zs[i][1] =>
    NoHmmOK(D, SubSeq(t, zs[i][2], zs[i][3]), BlockPieces(t, ps, zs[i]))

(* the route of the greatest product of plain frequencies (1 for no word,    *)
(* 0 for a character that only begins words): the recorded finding           *)
RawInf == 1000000000
RawCost(D, w) == IF FreqD(D, w) > 0 THEN 2 * One2 - Lg(FreqD(D, w))
                 ELSE IF Has(D, w) \/ ProperPrefix(D, w) THEN RawInf ELSE 0
PosRawOK(D, t, ps) ==
  LET zs == PosZones(t, 1) IN
  \A i \in Idx(zs) : zs[i][1] =>
    LET x == SubSeq(t, zs[i][2], zs[i][3])
        C(k, j) == RawCost(D, SubSeq(x, k, j))
        o == RouteBest(D, x, C)
    IN o >= RawInf \div 2 \/ RouteOKWith(D, x, BlockPieces(t, ps, zs[i]), C, o, RTol(Len(x)))
====
