---- MODULE Hmm ----
(***************************************************************************)
(* The HMM cut.  A model maps a rune to its four emission costs <<B,E,M,S>> *)
(* (negative logarithms in units of 1/4096; Miss: not in the table).        *)
(* A cost is a number of missing probabilities times Big plus the rest;     *)
(* next to a missing probability the rest does not count (it is absorbed).  *)
(* The rest stays below Big: beyond Cap it is not told apart.              *)
(***************************************************************************)
EXTENDS Text

Miss == -1
Big == 20000000
St == [B |-> 1076, E |-> Big, M |-> Big, S |-> 6002]
TrBE == 2092   TrBM == 3753   TrEB == 2415   TrES == 3312
TrME == 1366   TrMM == 5162   TrSB == 2954   TrSS == 2727

Em(mod, c, k) == LET v == mod[c][k] IN IF v = Miss THEN Big ELSE v
EmB(mod, c) == Em(mod, c, 1)
EmE(mod, c) == Em(mod, c, 2)
EmM(mod, c) == Em(mod, c, 3)
EmS(mod, c) == Em(mod, c, 4)
Mn(a, b) == IF a < b THEN a ELSE b
Cap == Big - 20000                   \* transitions fit above it
Plus(a, b) == LET s == a + b IN
  IF s < Cap THEN s ELSE (a \div Big + b \div Big) * Big + Mn((a % Big) + (b % Big), Cap)

(* Least costs of the state paths of x ending in each state, the last x.     *)
Vit(mod, x) ==
  LET c1 == x[1] IN
  FoldLeft(LAMBDA v, k : LET c == x[k] IN
       [B |-> Plus(Mn(v.E + TrEB, v.S + TrSB), EmB(mod, c)),
        E |-> Plus(Mn(v.B + TrBE, v.M + TrME), EmE(mod, c)),
        M |-> Plus(Mn(v.M + TrMM, v.B + TrBM), EmM(mod, c)),
        S |-> Plus(Mn(v.S + TrSS, v.E + TrES), EmS(mod, c))],
     [B |-> Plus(St.B, EmB(mod, c1)), E |-> Plus(St.E, EmE(mod, c1)), M |-> Plus(St.M, EmM(mod, c1)), S |-> Plus(St.S, EmS(mod, c1))],
     [k \in 1..(Len(x)-1) |-> k+1])
VitBest(mod, x) == LET v == Vit(mod, x) IN Mn(v.E, v.S)

(* Least cost of the paths that give exactly these pieces.  A piece of one    *)
(* character is S (or E at the start), a longer one B M .. M E (or M .. M E   *)
(* at the start).                                                           *)
InnerCost(mod, p) ==                 \* of M .. M E behind the first character, but for the first transition
  FoldLeft(LAMBDA a, k : Plus(a + (IF k = 2 THEN 0 ELSE IF k < Len(p) THEN TrMM ELSE TrME),
                              IF k < Len(p) THEN EmM(mod, p[k]) ELSE EmE(mod, p[k])), 0,
           [k \in 1..(Len(p)-1) |-> k+1])
Lim == 2000000000
AddL(a, b) == IF a >= Lim - b THEN Lim ELSE Plus(a, b)
PiecesCost(mod, ps) ==
  LET First(p) ==
        IF Len(p) = 1 THEN [E |-> AddL(St.E, EmE(mod, p[1])), S |-> AddL(St.S, EmS(mod, p[1]))]
        ELSE [E |-> Mn(AddL(Plus(St.B, EmB(mod, p[1])) + (IF Len(p) = 2 THEN TrBE ELSE TrBM), InnerCost(mod, p)),
                       AddL(Plus(St.M, EmM(mod, p[1])) + (IF Len(p) = 2 THEN TrME ELSE TrMM), InnerCost(mod, p))),
              S |-> Lim]
      Next(v, p) ==
        IF Len(p) = 1 THEN [E |-> Lim, S |-> AddL(Mn(AddL(v.E, TrES), AddL(v.S, TrSS)), EmS(mod, p[1]))]
        ELSE [E |-> AddL(AddL(Mn(AddL(v.E, TrEB), AddL(v.S, TrSB)),
                              EmB(mod, p[1]) + (IF Len(p) = 2 THEN TrBE ELSE TrBM)), InnerCost(mod, p)),
              S |-> Lim]
      r == FoldLeft(Next, First(ps[1]), Tail(ps))
  IN Mn(r.E, r.S)

(* x a non-empty run, ps its pieces *)
VitOK(mod, x, ps) ==
  /\ ps # <<>>
  /\ \A k \in Idx(ps) : ps[k] # <<>>
  /\ Concat(ps) = x
  /\ LET o == VitBest(mod, x)
         c == PiecesCost(mod, ps)
     IN IF o >= Big THEN c \div Big = o \div Big
        ELSE c <= o + 2 * Len(x) + 2

----------------------------------------------------------------------------
(* Which parts of the text are cut.                                          *)
InCls(c, k) ==
  CASE k = "han" -> CT[c].han
    [] k = "an" -> CT[c].an
    [] k = "dg" -> CT[c].dg
    [] k = "let" -> CT[c].let
    [] k = "jp" -> CT[c].jp
    [] k = "any" -> TRUE
    [] k = "none" -> FALSE

RECURSIVE RunEnd(_, _, _)
RunEnd(t, p, k) ==                   \* last position of the run of k at p
  IF p = Len(t) \/ ~InCls(t[p+1], k) THEN p ELSE RunEnd(t, p + 1, k)

(* the skipped piece that starts at p: its last position, or 0 *)
Skips(t, p, sk) == IF sk # "std" THEN InCls(t[p], sk) ELSE CT[t[p]].an
SkipEnd(t, p, sk) ==
  IF ~Skips(t, p, sk) THEN 0
  ELSE IF sk # "std" THEN RunEnd(t, p, sk)
  ELSE LET d == RunEnd(t, p, "dg") IN
       IF CT[t[p]].dg /\ d + 2 <= Len(t) /\ CT[t[d+1]].s = "." /\ CT[t[d+2]].dg
       THEN RunEnd(t, d + 2, "dg")
       ELSE RunEnd(t, p, "an")

RECURSIVE PlainEnd(_, _, _, _)
PlainEnd(t, p, ck, sk) ==            \* last position before the next run or skipped piece
  IF p = Len(t) \/ InCls(t[p+1], ck) \/ Skips(t, p + 1, sk) THEN p ELSE PlainEnd(t, p + 1, ck, sk)

RECURSIVE Zones(_, _, _, _)
Zones(t, p, ck, sk) ==               \* sequence of <<is a run to cut, first, last>>
  IF p > Len(t) THEN <<>>
  ELSE LET e == IF InCls(t[p], ck) THEN RunEnd(t, p, ck)
                ELSE IF Skips(t, p, sk) THEN SkipEnd(t, p, sk)
                ELSE PlainEnd(t, p, ck, sk)
       IN << <<InCls(t[p], ck), p, e>> >> \o Zones(t, e + 1, ck, sk)

RECURSIVE Upto(_, _, _)
Upto(ps, i, n) ==                    \* the pieces behind the i-th up to here have n characters; 0: none
  IF n = 0 THEN i
  ELSE IF i = Len(ps) \/ ps[i+1] = <<>> \/ Len(ps[i+1]) > n THEN 0
  ELSE Upto(ps, i + 1, n - Len(ps[i+1]))

(* the observed pieces are a right cut of the rune text t *)
HmmCutOK(mod, t, pieces, ck, sk) ==
  LET zs == Zones(t, 1, ck, sk)
      Step(a, z) ==                  \* a.i pieces consumed
        IF ~a.ok THEN a
        ELSE IF ~z[1]
        THEN IF a.i < Len(pieces) /\ pieces[a.i + 1] = SubSeq(t, z[2], z[3])
             THEN [a EXCEPT !.i = @ + 1] ELSE [a EXCEPT !.ok = FALSE]
        ELSE LET n == z[3] - z[2] + 1
                 j == Upto(pieces, a.i, n)
             IN IF j = 0 THEN [a EXCEPT !.ok = FALSE]
                ELSE IF VitOK(mod, SubSeq(t, z[2], z[3]), SubSeq(pieces, a.i + 1, j))
                     THEN [a EXCEPT !.i = j] ELSE [a EXCEPT !.ok = FALSE]
      r == FoldLeft(Step, [i |-> 0, ok |-> TRUE], zs)
  IN r.ok /\ r.i = Len(pieces)
====
