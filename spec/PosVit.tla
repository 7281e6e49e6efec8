---- MODULE PosVit ----
(***************************************************************************)
(* The model of parts of speech: a state is a position (B, E, M, S) with a   *)
(* tag; the number of a state is NT * (position - 1) + the number of the tag. *)
(* A cost is a negative logarithm in 1/4096; a missing probability outweighs   *)
(* everything that is there: from Lost on a cost counts the missing ones.      *)
(***************************************************************************)
EXTENDS Seg

CONSTANT PM        \* [tags, start, pred, tab, em]: see the driver; Miss (-1): no probability

PMiss == -1
Lost == 1000000000
NT == Len(PM.tags)
PStates == 1..(4 * NT)
Part(s) == ((s - 1) \div NT) + 1
PTag(s) == PM.tags[((s - 1) % NT) + 1]
TagNo(p) == {q \in 1..NT : PM.tags[q] = p}

Plus(v, c) == IF c = PMiss THEN (IF v >= Lost THEN v + 1 ELSE Lost + 1)
              ELSE IF v >= Lost THEN v ELSE v + c
EmP(c, s) == IF PM.em[c] = <<>> THEN PMiss ELSE PM.em[c][s]

(* the states of the first character, and of a character behind the states X:  *)
(* those of its table that can follow, or all that can follow                 *)
States1(c) == IF PM.tab[c] = <<>> THEN PStates ELSE Range(PM.tab[c])
Follows(X, y) == \E q \in Idx(PM.pred[y]) : PM.pred[y][q][1] \in X
StatesN(X, c) ==
  LET f == {y \in States1(c) : Follows(X, y)}
  IN IF f # {} THEN f ELSE {y \in PStates : Follows(X, y)}

Start(c) == [s \in States1(c) |-> Plus(Plus(0, EmP(c, s)), PM.start[s])]
StepV(V, c) ==
  LET X == DOMAIN V IN
  [y \in StatesN(X, c) |->
     Plus(Min({V[PM.pred[y][q][1]] + (IF V[PM.pred[y][q][1]] >= Lost THEN 0 ELSE PM.pred[y][q][2])
               : q \in {i \in Idx(PM.pred[y]) : PM.pred[y][i][1] \in X}}), EmP(c, y))]

(* the least costs of the paths, character by character *)
PVit(x) == FoldLeft(LAMBDA a, k : Append(a, StepV(a[k-1], x[k])), <<Start(x[1])>>, [k \in 1..(Len(x)-1) |-> k+1])
PBest(vs) == LET v == Last(vs) IN Min({v[s] : s \in DOMAIN v})

Never == -2
TransC(a, y) == LET qs == {q \in Idx(PM.pred[y]) : PM.pred[y][q][1] = a}
                IN IF qs = {} THEN Never ELSE PM.pred[y][CHOOSE q \in qs : TRUE][2]
(* the cost of one path, Never if it is none *)
PathC(x, vs, p) ==
  FoldLeft(LAMBDA v, k :
     IF v = Never \/ p[k] \notin DOMAIN vs[k] THEN Never
     ELSE IF k = 1 THEN vs[1][p[1]]
     ELSE LET c == TransC(p[k-1], p[k]) IN
          IF c = Never THEN Never ELSE Plus(IF v >= Lost THEN v ELSE v + c, EmP(x[k], p[k])),
   0, Ixs(x))

(* The paths that give a piece of n characters with the tag q: S, or B M .. M E;  *)
(* at the start the first may also be E or M, at the end the last may be B or M.   *)
PieceStates(n, q, first, last) ==
  LET S(k) == NT * (k - 1) + q
      heads == IF n = 1 THEN {4} \cup (IF first THEN {2} ELSE {}) \cup (IF last THEN {1} ELSE {})
                             \cup (IF first /\ last THEN {3} ELSE {})
               ELSE {1} \cup (IF first THEN {3} ELSE {})
      ends == IF n = 1 THEN {0} ELSE {2} \cup (IF last THEN {3} ELSE {})
  IN {[k \in 1..n |-> S(IF k = 1 THEN h ELSE IF k < n THEN 3 ELSE e)] : h \in heads, e \in ends}
RECURSIVE PathsOfPieces(_, _)
PathsOfPieces(ps, first) ==          \* sequences of states
  IF ps = <<>> THEN {<<>>}
  ELSE LET qs == TagNo(ps[1].p) IN
       IF qs = {} THEN {}
       ELSE {a \o b : a \in PieceStates(Len(ps[1].t), CHOOSE q \in qs : TRUE, first, Len(ps) = 1),
                      b \in PathsOfPieces(Tail(ps), FALSE)}

(* the pieces and tags of the run x are those of a path that no other beats *)
PosVitOK(x, ps) ==
  /\ ps # <<>> /\ Concat(Texts(ps)) = x
  /\ \A k \in Idx(ps) : ps[k].t # <<>>
  /\ LET vs == PVit(x)
         best == PBest(vs)
     IN \E p \in PathsOfPieces(ps, TRUE) :
          LET c == PathC(x, vs, p)
          IN c # Never /\ (IF best >= Lost THEN c = best ELSE c <= best + 2 * Len(x) + 2)
====
