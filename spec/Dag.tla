---- MODULE Dag ----
(***************************************************************************)
(* The cuts over runes: the most probable route, full mode, 2- and 3-grams, *)
(* suggested frequencies.  x is a rune text.                                *)
(***************************************************************************)
EXTENDS Seg

Pos4 == 4                            \* frequency 1, in quarters

(* words of positive frequency that start at k, by their last position *)
WordsAt(D, x, k) ==
  {j \in k..(IF k + D.mxc - 1 < Len(x) THEN k + D.mxc - 1 ELSE Len(x)) :
     FreqD(D, SubSeq(x, k, j)) > 0}
Ends(D, x, k) == LET w == WordsAt(D, x, k) IN IF w = {} THEN {k} ELSE w

(* cost of the piece: log2(total/freq); all costs are >= 0 as total >= freq *)
RCost(D, x, k, j) ==
  IF D.tot = 0 THEN 0
  ELSE LET f == FreqD(D, SubSeq(x, k, j)) IN Lg(D.tot) - Lg(IF f > 0 THEN f ELSE Pos4)

(* least cost of the suffix from k on, for every k: index k in 1..Len+1     *)
(* (built backwards, then reversed)                                         *)
RBest(D, x) ==
  LET n == Len(x)
      Step(best, q) ==               \* best[i] is the cost from position n+2-i on
        LET k == n + 1 - q
            cs == {RCost(D, x, k, j) + best[n + 1 - j] : j \in Ends(D, x, k)}
        IN Append(best, Min(cs))
  IN Reverse(FoldLeft(Step, <<0>>, [q \in 1..n |-> q]))
RTol(n) == 4 * n + 4

AlnumText(t) == \A k \in Idx(t) : CT[t[k]].an

(* Boundaries of the observed pieces: 0, Len(p1), ... ; they must spell x.  *)
Bounds(pieces) == FoldLeft(LAMBDA a, p : Append(a, Last(a) + Len(p)), <<0>>, pieces)

Inf == 2000000000
AddC(a, c) == IF a = Inf \/ (c > 0 /\ a >= Inf - c) THEN Inf ELSE a + c
MinC(a, b) == IF a < b THEN a ELSE b

(* The observed pieces are a cheapest route with neighbouring single ASCII    *)
(* letters and digits joined.  a.w / a.s: least cost with the last piece a    *)
(* route word / a run of singles.                                           *)
RouteOKWith(D, x, pieces, C(_, _), opt, tol) ==
  LET b == Bounds(pieces)
      Step(a, i) ==
        LET p == pieces[i]
            k == b[i] + 1
            j == b[i+1]
            word == /\ j \in Ends(D, x, k)
                    /\ ~(k = j /\ AlnumText(p))
            singles == AlnumText(p) /\ \A q \in k..j : q \in Ends(D, x, q)
            sc == FoldLeft(LAMBDA s, q : AddC(s, C(q, q)), 0, [q \in 1..(j-k+1) |-> k + q - 1])
        IN [w |-> IF word THEN AddC(MinC(a.w, a.s), C(k, j)) ELSE Inf,
            s |-> IF singles THEN AddC(a.w, sc) ELSE Inf]
      r == FoldLeft(Step, [w |-> 0, s |-> Inf], Ixs(pieces))
  IN /\ \A i \in Idx(pieces) : pieces[i] # <<>>
     /\ Concat(pieces) = x
     /\ MinC(r.w, r.s) <= opt + tol

NoHmmOK(D, x, pieces) ==
  LET C(k, j) == RCost(D, x, k, j)
  IN RouteOKWith(D, x, pieces, C, RBest(D, x)[1], RTol(Len(x)))

(* Cut with HMM.  hm[i][j] (i < j) is what HMMCut makes of the text between   *)
(* the observed boundaries i and j.                                         *)
HmmCheap(D, x, pieces, HM(_, _)) ==
  LET b == Bounds(pieces)
      n == Len(pieces)
      best == RBest(D, x)
      opt == best[1]
      \* what the run between boundaries i and j must be output as
      RunOut(i, j) == LET run == SubSeq(x, b[i] + 1, b[j]) IN
                      IF Len(run) = 1 THEN <<run>>
                      ELSE IF FreqD(D, run) > 0 THEN [k \in 1..Len(run) |-> <<run[k]>>]
                      ELSE HM(i, j)
      ends == Tup([k \in 1..Len(x) |-> Ends(D, x, k)])
      \* the cost of the single characters up to here, and how many cannot stand alone
      one == FoldLeft(LAMBDA a, q : Append(a, [c |-> Last(a).c + RCost(D, x, q, q),
                                               no |-> Last(a).no + IF q \in ends[q] THEN 0 ELSE 1]),
                      <<[c |-> 0, no |-> 0]>>, Ixs(x))
      RunOK(i, j) == /\ one[b[i] + 1].no = one[b[j] + 1].no
                     /\ RunOut(i, j) = SubSeq(pieces, i, j - 1)
      RunCost(i, j) == one[b[j] + 1].c - one[b[i] + 1].c
      Word(j) == Len(pieces[j]) > 1 /\ b[j+1] \in ends[b[j] + 1]
      \* acc: sequence over boundaries of [w, s]; boundary j = Len(acc)+1
      Step(acc, j) ==
        LET k == b[j-1] + 1
            w == IF Word(j - 1) THEN AddC(MinC(acc[j-1].w, acc[j-1].s), RCost(D, x, k, b[j])) ELSE Inf
            \* a run starts behind a word (or at the start), and ends before one (or at the end)
            F(m, i) == IF acc[i].w = Inf \/ b[i+1] = b[i] THEN m
                       ELSE LET c == AddC(acc[i].w, RunCost(i, j)) IN
                            IF c >= m \/ ~RunOK(i, j) THEN m ELSE c
        IN Append(acc, [w |-> w, s |-> IF j = n + 1 \/ Word(j) THEN FoldLeft(F, Inf, [i \in 1..(j-1) |-> i]) ELSE Inf])
      r == Last(FoldLeft(Step, << [w |-> 0, s |-> Inf] >>, [q \in 1..n |-> q + 1]))
  IN MinC(r.w, r.s) <= opt + RTol(Len(x))
HmmRouteOK(D, x, pieces, HM(_, _)) ==
  /\ \A i \in Idx(pieces) : pieces[i] # <<>>
  /\ Concat(pieces) = x
  /\ HmmCheap(D, x, pieces, HM)

----------------------------------------------------------------------------
(* Full mode: every word of two or more characters, in order; a single       *)
(* character when no longer word starts at it and no piece before covers it.  *)
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
CutAllOf(D, x) ==
  FoldLeft(LAMBDA a, k :
      LET long == Asc({j \in WordsAt(D, x, k) : j > k})
      IN IF long # <<>>
         THEN [cov |-> Last(long), out |-> a.out \o [i \in 1..Len(long) |-> SubSeq(x, k, long[i])]]
         ELSE IF k > a.cov THEN [cov |-> k, out |-> Append(a.out, <<x[k]>>)]
         ELSE a,
    [cov |-> 0, out |-> <<>>], Ixs(x)).out

(* 2- and 3-grams of a word, then the word *)
Grams(D, w, n) ==
  IF Len(w) <= n THEN <<>>
  ELSE SelectSeq([k \in 1..(Len(w) - n + 1) |-> SubSeq(w, k, k + n - 1)],
                 LAMBDA g : FreqD(D, g) > 0)
SearchOf(D, words) ==
  FoldLeft(LAMBDA a, w : Append(a \o Grams(D, w, 2) \o Grams(D, w, 3), w), <<>>, words)

----------------------------------------------------------------------------
(* Suggested frequencies.  The product of the parts' probabilities times the *)
(* total, in log2 units relative to quarter units; Zero if a part is 0.       *)
Zero == -2000000000
LgPart(D, w) ==                      \* log2 of the frequency that counts for a part
  LET q == FindD(D, w) IN
  IF q.ok THEN (IF q.f = 0 THEN Zero ELSE Lg(q.f) - 2 * One2) ELSE 0
LgProduct(D, parts) ==               \* log2(total * prod(part/total))
  IF \E k \in Idx(parts) : LgPart(D, parts[k]) = Zero THEN Zero
  ELSE FoldLeft(LAMBDA s, w : s + LgPart(D, w), 0, parts)
         - (Len(parts) - 1) * (IF D.tot = 0 THEN 0 ELSE Lg(D.tot) - 2 * One2)

(* v (an integer number) is the integer part of 2^l, up to rounding at the border *)
IsFloor(v, l, n) ==
  LET e == 3 * n + 8 IN
  IF v < 0 THEN FALSE
  ELSE IF l = Zero THEN v = 0
  ELSE /\ v > 0 => Lg(v) <= l + e
       /\ Lg(v + 1) >= l - e
====
