---- MODULE MCCut ----
(***************************************************************************)
(* Every dictionary made of at most L additions, and every text of a list:    *)
(* the algorithms of the code, transcribed, give what the specification        *)
(* allows, and the specification's recurrences are the minima they stand for.  *)
(***************************************************************************)
EXTENDS MCLife

D == S1.d
Calc == CalcD(D)
Texts_ == Ran(Al.texts)
Rng(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]

----------------------------------------------------------------------------
(* all ways to cut x into n..m pieces, as sequences of lengths               *)
RECURSIVE Comps(_)
Comps(n) == IF n = 0 THEN { <<>> }
            ELSE UNION { { <<k>> \o c : c \in Comps(n - k) } : k \in 1..n }
At(c, i) == FoldLeft(LAMBDA s, k : s + c[k], 0, Rng(1, i))

(* least cost of all segmentations *)
SegMin(E, x, ps) ==
  LET cost(c) == FoldLeft(LAMBDA s, i : LET p == PieceCost(E, x, ps, At(c, i-1) + 1, At(c, i))
                                        IN IF s = Bad \/ p = Bad THEN Bad ELSE Sat(s, p), 0, Ixs(c))
  IN Min({cost(c) : c \in Comps(Len(ps))} \ {Bad})
SegRight(E) == \A t \in Texts_ :
  LET x == AtomText(t, S1.o, TRUE)  ps == AtomPos(t, S1.o)
  IN Len(ps) <= 6 => OptCost(E, x, ps) = SegMin(E, x, ps)

(* least cost of all routes *)
RouteMin(E, x) ==
  LET ok(c) == \A i \in Idx(c) : At(c, i) \in Ends(E, x, At(c, i-1) + 1)
      cost(c) == FoldLeft(LAMBDA s, i : s + RCost(E, x, At(c, i-1) + 1, At(c, i)), 0, Ixs(c))
  IN Min({cost(c) : c \in {d \in Comps(Len(x)) : ok(d)}})
RouteRight(E) == E.tot > 0 => \A t \in Texts_ :
  LET x == ULow(t) IN Len(x) <= 6 => RBest(E, x)[1] = RouteMin(E, x)

----------------------------------------------------------------------------
(* The segmentation as the code makes it: jumpers, one per atom, with the       *)
(* least distance so far; every word that starts behind atom k updates the      *)
(* jumper of its last atom, and an atom that is no word its own.               *)
Infty == Huge
Jumpers(E, x, ps) ==
  FoldLeft(LAMBDA js, k :
     LET base == IF k = 1 THEN 0 ELSE js[k-1].d
         hi == IF k + E.mx - 1 < Len(ps) THEN k + E.mx - 1 ELSE Len(ps)
         words == SelectSeq(Rng(k, hi), LAMBDA j : Has(E, Piece(x, ps, k, j)))
         cand(j) == [d |-> Sat(base, WordCost(E, E.live[Piece(x, ps, k, j)])), from |-> k]
         upd(a, j) == IF a[j].from = 0 \/ cand(j).d < a[j].d THEN [a EXCEPT ![j] = cand(j)] ELSE a
         w == FoldLeft(upd, js, words)
         u == [d |-> Sat(base, Unknown), from |-> k]
     IN IF k \in Ran(words) THEN w
        ELSE IF w[k].from = 0 \/ u.d < w[k].d THEN [w EXCEPT ![k] = u] ELSE w,
   [k \in Idx(ps) |-> [d |-> 0, from |-> 0]], Ixs(ps))
RECURSIVE Back(_, _, _, _)
Back(js, x, ps, k) == IF k = 0 THEN <<>> ELSE Append(Back(js, x, ps, js[k].from - 1), Piece(x, ps, js[k].from, k))
CodeSeg(E, x, ps) == Back(Jumpers(E, x, ps), x, ps, Len(ps))
CodeSegRight(E) == \A t \in Texts_ :
  LET x == AtomText(t, S1.o, TRUE)  ps == AtomPos(t, S1.o)
  IN CheapestSeg(E, x, ps, CodeSeg(E, x, ps))

(* The route as the code makes it: from the right, ties to the longer piece,    *)
(* then neighbouring single letters and digits joined.                        *)
Routes(E, x) ==
  LET n == Len(x)
      Step(a, q) ==
        LET k == n + 1 - q
            c(j) == RCost(E, x, k, j) + (IF j = n THEN 0 ELSE a[j+1].d)
            js == Asc(Ends(E, x, k))
            best == FoldLeft(LAMBDA b, j : IF b = 0 \/ c(j) <= c(b) THEN j ELSE b, 0, js)
        IN [a EXCEPT ![k] = [d |-> c(best), to |-> best]]
  IN FoldLeft(Step, [k \in 1..n |-> [d |-> 0, to |-> 0]], Rng(1, n))
CodeNoHmm(E, x) ==
  LET r == Routes(E, x)
      go == FoldLeft(LAMBDA a, k :
              IF k <= a.at THEN a
              ELSE LET p == SubSeq(x, k, r[k].to)
                       one == Len(p) = 1 /\ CT[p[1]].an
                   IN [at |-> r[k].to,
                       buf |-> IF one THEN a.buf \o p ELSE <<>>,
                       out |-> IF one THEN a.out ELSE (IF a.buf # <<>> THEN Append(a.out, a.buf) ELSE a.out) \o <<p>>],
            [at |-> 0, buf |-> <<>>, out |-> <<>>], Ixs(x))
  IN IF go.buf # <<>> THEN Append(go.out, go.buf) ELSE go.out
CodeNoHmmRight(E) == \A t \in Texts_ : NoHmmOK(E, ULow(t), CodeNoHmm(E, ULow(t)))

(* full mode, as stated *)
AllRight(E) == \A t \in Texts_ :
  LET x == ULow(t)
      out == CutAllOf(E, x)
      longs == {<<i, j>> \in Idx(x) \X Idx(x) : i < j /\ FreqD(E, SubSeq(x, i, j)) > 0}
      multi == SelectSeq(out, LAMBDA w : Len(w) > 1)
  IN /\ Len(multi) = Cardinality(longs)
     /\ \A e \in longs : SubSeq(x, e[1], e[2]) \in Ran(out)
     /\ \A k \in Idx(x) : \E w \in Ran(out) : x[k] \in Ran(w)
     /\ x # <<>> => out # <<>>

(* the sub-segments of every word have a right value, and recursion ends       *)
RECURSIVE CodeKids(_, _, _)
CodeKids(E, as, j) ==               \* a cheapest split of the first j atoms
  IF j = 0 THEN <<>>
  ELSE LET b == SubBest(E, as)
           i == CHOOSE k \in 1..j : SnapCost(E, as, k, j) # Bad /\ Sat(b[k], SnapCost(E, as, k, j)) = b[j+1]
       IN CodeKids(E, as, i - 1) \o (IF Dropped(as, i, j) THEN <<>> ELSE <<Concat(SubSeq(as, i, j))>>)
SubsRight(E) == \A k \in Idx(E.toks) :
  LET as == E.toks[k].a IN Len(as) > 1 => SubsOK(E, as, CodeKids(E, as, Len(as)))

CutInv == LET E == Calc IN /\ SegRight(E) /\ SegRight(D)
                           /\ CodeSegRight(E) /\ CodeSegRight(D)
                           /\ RouteRight(E) /\ CodeNoHmmRight(E)
                           /\ AllRight(E) /\ SubsRight(E)
====
