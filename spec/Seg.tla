---- MODULE Seg ----
(***************************************************************************)
(* The shortest path segmentation over atoms, its sub-segments and the      *)
(* search mode.  Costs are in units of 1/65536 bit.                         *)
(***************************************************************************)
EXTENDS Dict

CONSTANT XP                          \* the part of speech "x" of unknown atoms, as a text

Unknown == 32 * One2                 \* the cost of an atom that is no word
Huge == 2000000000                   \* the cost of a word of frequency 0: whatever else there is, no more counts
Sat(a, b) == IF a >= Huge - b THEN Huge ELSE a + b
Bad == -1                            \* not a possible piece

WordCost(D, i) ==                    \* of the token i
  IF i > D.ncal THEN 0
  ELSE IF D.toks[i].f = 0 \/ D.stot = 0 THEN Huge
  ELSE Lg(D.stot) - Lg(D.toks[i].f)

(* x the atom text, ps the atom positions, atoms i..j *)
Piece(x, ps, i, j) == SubSeq(x, ps[i][1], ps[j][2])
PieceCost(D, x, ps, i, j) ==
  LET w == Piece(x, ps, i, j)
  IN IF j - i + 1 <= D.mx /\ Has(D, w) THEN WordCost(D, D.live[w])
     ELSE IF i = j THEN Unknown ELSE Bad

(* The least cost of the first j atoms, for every j: the forward recurrence *)
BestTo(D, x, ps) ==
  FoldLeft(LAMBDA best, j :
     LET lo == IF j - D.mx + 1 > 1 THEN j - D.mx + 1 ELSE 1
         F(a, i) == LET c == PieceCost(D, x, ps, i, j)
                    IN IF c = Bad THEN a
                       ELSE IF a = Bad \/ Sat(best[i], c) < a THEN Sat(best[i], c) ELSE a
     IN Append(best, FoldLeft(F, Bad, [k \in 1..(j - lo + 1) |-> lo + k - 1] \o (IF lo > j THEN <<j>> ELSE <<>>))),
   <<0>>, [k \in 1..Len(ps) |-> k])
OptCost(D, x, ps) == Last(BestTo(D, x, ps))

(* rounding of the code's float32 sums, and of ours *)
Tol(n, c) == n * (4 + c \div 8388608)

(* walk the observed pieces along the atoms; ok = they are atom-aligned pieces
   of the text that may be used; cost is their cost *)
Walk(D, x, ps, pieces) ==
  LET starts == [k \in {ps[i][1] : i \in Idx(ps)} |-> CHOOSE i \in Idx(ps) : ps[i][1] = k]
      ends == [k \in {ps[i][2] : i \in Idx(ps)} |-> CHOOSE i \in Idx(ps) : ps[i][2] = k]
      Step(a, p) ==
        LET c0 == a.at + 1
            c1 == a.at + Len(p)
        IN IF ~a.ok \/ p = <<>> \/ c0 \notin DOMAIN starts \/ c1 \notin DOMAIN ends
           THEN [a EXCEPT !.ok = FALSE]
           ELSE IF SubSeq(x, c0, c1) # p THEN [a EXCEPT !.ok = FALSE]
           ELSE LET c == PieceCost(D, x, ps, starts[c0], ends[c1])
                IN IF c = Bad THEN [a EXCEPT !.ok = FALSE]
                   ELSE [at |-> c1, cost |-> Sat(a.cost, c), ok |-> TRUE]
      r == FoldLeft(Step, [at |-> 0, cost |-> 0, ok |-> TRUE], pieces)
  IN [r EXCEPT !.ok = @ /\ r.at = Len(x)]

(* an observed segmentation is a cheapest one; when all the frequencies are 0, *)
(* the costs mean nothing, and any pieces that may be used will do            *)
NoCosts(D) == D.ncal > 0 /\ D.stot = 0
CheapestSeg(D, x, ps, pieces) ==
  LET w == Walk(D, x, ps, pieces)
      o == OptCost(D, x, ps)
  IN w.ok /\ (NoCosts(D) \/ w.cost <= o + Tol(Len(ps), o))

----------------------------------------------------------------------------
(* Sub-segments, as of the last cost calculation.                           *)
SnapCost(D, as, i, j) ==             \* atoms i..j of the word with atoms as
  LET w == Concat(SubSeq(as, i, j))
  IN IF i = 1 /\ j = Len(as) THEN (IF i = j THEN Unknown ELSE Bad)
     ELSE IF j - i + 1 <= D.smx /\ w \in DOMAIN D.slive
     THEN (IF D.toks[D.slive[w]].f = 0 \/ D.stot = 0 THEN Huge ELSE Lg(D.stot) - Lg(D.toks[D.slive[w]].f))
     ELSE IF i = j THEN Unknown ELSE Bad

SubBest(D, as) ==
  FoldLeft(LAMBDA best, j :
     LET F(a, i) == LET c == SnapCost(D, as, i, j)
                    IN IF c = Bad THEN a
                       ELSE IF a = Bad \/ Sat(best[i], c) < a THEN Sat(best[i], c) ELSE a
     IN Append(best, FoldLeft(F, Bad, [k \in 1..j |-> k])),
   <<0>>, Ixs(as))

IsJpText(t) == \E k \in Idx(t) : CT[t[k]].jp
(* single Hiragana or Katakana atoms are left out of the sub-segments *)
Dropped(as, i, j) == i = j /\ IsJpText(as[i])

(* kids (texts) is what remains of some cheapest split of the word's atoms:  *)
(* best cost of reaching atom i having matched the first m of the kids       *)
SubsOK(D, as, kids) ==
  IF Len(as) <= 1 THEN kids = <<>>
  ELSE
    LET opt == IF NoCosts(D) THEN Huge ELSE Last(SubBest(D, as))
        n == Len(as)
        S0 == {<<0, 0, 0>>}          \* <<atoms consumed, kids matched, cost>>
        Ext(S) == UNION { { <<j, IF Dropped(as, s[1]+1, j) THEN s[2] ELSE s[2] + 1, Sat(s[3], SnapCost(D, as, s[1]+1, j))>> :
                     j \in {q \in (s[1]+1)..n :
                              /\ SnapCost(D, as, s[1]+1, q) # Bad
                              /\ Sat(s[3], SnapCost(D, as, s[1]+1, q)) <= opt + Tol(n, opt)
                              /\ \/ Dropped(as, s[1]+1, q)
                                 \/ s[2] < Len(kids) /\ kids[s[2]+1] = Concat(SubSeq(as, s[1]+1, q))} }
                   : s \in {z \in S : z[1] < n} }
        R == FoldLeft(LAMBDA S, k : S \cup Ext(S), S0, Ixs(as))
    IN \E s \in R : s[1] = n /\ s[2] = Len(kids)

(* The observed tree of a token: [t, p, f, k] with k the list of its children. *)
(* w is looked up in live (index of the token), or is an unknown atom.         *)
RECURSIVE TreeOK(_, _, _)
TreeOK(D, live, n) ==
  IF n.t \in DOMAIN live
  THEN LET i == live[n.t]
           k == D.toks[i]
       IN /\ n.f = k.f /\ n.p = k.p
          /\ IF i > D.ncal THEN n.k = <<>>
             ELSE /\ SubsOK(D, k.a, Texts(n.k))
                  /\ \A c \in Idx(n.k) : TreeOK(D, D.slive, n.k[c])
  ELSE n.f = 4 /\ n.k = <<>> /\ n.p = XP

----------------------------------------------------------------------------
(* Search mode output of a tree: the nodes in the order they are printed.   *)
FirstAtom(D, t) == IF t \in DOMAIN D.slive THEN D.toks[D.slive[t]].a[1] ELSE t

RECURSIVE Expand(_, _)
Expand(D, n) ==
  LET Opens(c) == Len(c.k) > 1 \/ IsJpText(FirstAtom(D, c.t))
      r == FoldLeft(LAMBDA a, i :
               LET open == a.open \/ Opens(n.k[i])
               IN [open |-> open, out |-> IF open THEN a.out \o Expand(D, n.k[i]) ELSE a.out],
             [open |-> FALSE, out |-> <<>>], Ixs(n.k))
  IN Append(r.out, [t |-> n.t, p |-> n.p])
====
