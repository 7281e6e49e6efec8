---- MODULE MCHmm ----
(***************************************************************************)
(* Every model over two characters with emissions out of a few values, and    *)
(* every text of at most L characters: the recurrence is the minimum over     *)
(* all state paths, the cost of pieces is the minimum over the paths that      *)
(* give them, and the pieces that the recurrence's path gives are right.      *)
(***************************************************************************)
EXTENDS Hmm

CONSTANTS L, VALS
NoCT == <<>>
MCVals == {0, 9000, Miss}
VARIABLES mod, x
Init == /\ x = <<>>
        /\ mod \in [1..2 -> [1..4 -> VALS]]
Next == \E c \in 1..2 : Len(x) < L /\ x' = Append(x, c) /\ UNCHANGED mod
Spec == Init /\ [][Next]_<<mod, x>>

States == {"B", "M", "E", "S"}
StC(s) == CASE s = "B" -> St.B [] s = "E" -> St.E [] s = "M" -> St.M [] s = "S" -> St.S
EmC(s, c) == CASE s = "B" -> EmB(mod, c) [] s = "E" -> EmE(mod, c) [] s = "M" -> EmM(mod, c) [] s = "S" -> EmS(mod, c)
No == -1
TrC(a, b) ==
  CASE a = "B" /\ b = "E" -> TrBE [] a = "B" /\ b = "M" -> TrBM [] a = "E" /\ b = "B" -> TrEB [] a = "E" /\ b = "S" -> TrES
    [] a = "M" /\ b = "E" -> TrME [] a = "M" /\ b = "M" -> TrMM [] a = "S" /\ b = "B" -> TrSB [] a = "S" /\ b = "S" -> TrSS
    [] OTHER -> No
Paths == {p \in [Idx(x) -> States] : /\ p[Len(x)] \in {"E", "S"}
                                     /\ \A k \in 1..(Len(x)-1) : TrC(p[k], p[k+1]) # No}
Cost(p) == FoldLeft(LAMBDA s, k : s + EmC(p[k], x[k]) + (IF k = 1 THEN StC(p[1]) ELSE TrC(p[k-1], p[k])), 0, Ixs(x))
PiecesOf(p) ==
  FoldLeft(LAMBDA a, k : IF p[k] \in {"E", "S"} THEN [out |-> Append(a.out, SubSeq(x, a.at + 1, k)), at |-> k] ELSE a,
           [out |-> <<>>, at |-> 0], Ixs(x)).out
VitRight == x # <<>> =>
  LET ps == Paths
      best == Min({Cost(p) : p \in ps})
  IN /\ VitBest(mod, x) = best
     /\ \A q \in {PiecesOf(p) : p \in ps} : PiecesCost(mod, q) = Min({Cost(p) : p \in {z \in ps : PiecesOf(z) = q}})
     /\ \A p \in ps : Cost(p) = best => VitOK(mod, x, PiecesOf(p))
     \* and nothing that is dearer passes, where all is there
     /\ best < Big => \A p \in ps : VitOK(mod, x, PiecesOf(p)) => PiecesCost(mod, PiecesOf(p)) <= best + 2 * Len(x) + 2
====
