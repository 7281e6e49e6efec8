---- MODULE MCPosVit ----
(***************************************************************************)
(* A small model of parts of speech (two tags; characters with a table, with   *)
(* emissions only, with neither, and with states that never follow), every      *)
(* text of at most L characters: the recurrence is the minimum over all state    *)
(* paths, the pieces that the code's loop makes of a path are exactly those      *)
(* whose paths contain it, and those of the best paths are accepted.           *)
(***************************************************************************)
EXTENDS PosVit

CONSTANTS L
NoCT == <<>>
MCXP == <<9>>
(* states: 1 B1, 2 B2, 3 E1, 4 E2, 5 M1, 6 M2, 7 S1, 8 S2 *)
MCPM ==
  [tags |-> << <<1>>, <<2>> >>,
   start |-> <<100, 3000, -1, -1, -1, -1, 200, 900>>,
   pred |-> << << <<3, 500>>, <<7, 700>>, <<8, 100>> >>, << <<4, 200>>, <<7, 50>> >>,
               << <<1, 10>>, <<5, 400>> >>, << <<2, 30>>, <<6, 300>> >>,
               << <<1, 900>>, <<5, 80>> >>, << <<2, 600>> >>,
               << <<3, 250>>, <<4, 350>>, <<7, 1200>> >>, << <<3, 20>>, <<8, 800>> >> >>,
   tab |-> << <<1, 3, 7>>, <<2, 4, 6, 8>>, <<>>, <<>>, <<6>> >>,
   em |-> << <<500, -1, 300, -1, -1, -1, 900, 40>>, <<-1, 100, -1, 800, -1, 250, -1, 1500>>,
             <<>>, <<70, 60, 50, 40, 30, 20, 10, 0>>, <<-1, -1, 5, -1, -1, 15, -1, -1>> >>]

VARIABLE x
Init == x = <<>>
Next == \E c \in 1..5 : Len(x) < L /\ x' = Append(x, c)
Spec == Init /\ [][Next]_x

(* the loop of the code: the pieces and tags of a path *)
PiecesOf(p) ==
  LET Step(a, i) ==
        CASE Part(p[i]) = 1 -> [a EXCEPT !.begin = i]
          [] Part(p[i]) = 2 -> [a EXCEPT !.out = Append(@, [t |-> SubSeq(x, a.begin, i), p |-> PTag(p[i])]), !.next = i + 1]
          [] Part(p[i]) = 4 -> [a EXCEPT !.out = Append(@, [t |-> <<x[i]>>, p |-> PTag(p[i])]), !.next = i + 1]
          [] OTHER -> a
      r == FoldLeft(Step, [out |-> <<>>, begin |-> 1, next |-> 1], Ixs(x))
  IN IF r.next <= Len(x) THEN Append(r.out, [t |-> SubSeq(x, r.next, Len(x)), p |-> PTag(p[r.next])]) ELSE r.out

(* the states that the code considers, by its own loop *)
CodeStates ==
  FoldLeft(LAMBDA a, k : LET X == Last(a)
                             expect == UNION {{y \in PStates : TransC(s, y) # Never} : s \in X}
                             obs == IF PM.tab[x[k]] = <<>> THEN PStates ELSE Range(PM.tab[x[k]])
                         IN Append(a, IF obs \cap expect # {} THEN obs \cap expect ELSE expect),
           <<IF PM.tab[x[1]] = <<>> THEN PStates ELSE Range(PM.tab[x[1]])>>, [k \in 1..(Len(x)-1) |-> k+1])

RECURSIVE Walks(_, _)
Walks(ds, k) == IF k = 1 THEN {<<s>> : s \in ds[1]}
                ELSE {Append(p, s) : p \in Walks(ds, k - 1), s \in ds[k]}
Real(p) == \A k \in 1..(Len(p)-1) : TransC(p[k], p[k+1]) # Never
Cost(p) == FoldLeft(LAMBDA v, k : LET w == IF k = 1 THEN 0 ELSE Plus(v, TransC(p[k-1], p[k]))
                                  IN IF k = 1 THEN Plus(Plus(0, PM.start[p[1]]), EmP(x[1], p[1])) ELSE Plus(w, EmP(x[k], p[k])),
                    0, Ixs(x))
VitRight == x # <<>> =>
  LET vs == PVit(x)
      ds == CodeStates
      ps == {p \in Walks(ds, Len(x)) : Real(p)}
      best == Min({Cost(p) : p \in ps})
      made == {PiecesOf(p) : p \in ps}
  IN /\ \A k \in Idx(x) : DOMAIN vs[k] = ds[k]
     /\ ps # {} /\ PBest(vs) = best
     /\ \A p \in ps : PathC(x, vs, p) = Cost(p) /\ Concat(Texts(PiecesOf(p))) = x
     /\ \A q \in made : {p \in PathsOfPieces(q, TRUE) : PathC(x, vs, p) # Never} = {p \in ps : PiecesOf(p) = q}
     /\ \A p \in ps : Cost(p) = best => PosVitOK(x, PiecesOf(p))
     /\ best < Lost => \A p \in ps : PosVitOK(x, PiecesOf(p)) =>
          \E z \in ps : PiecesOf(z) = PiecesOf(p) /\ Cost(z) <= best + 2 * Len(x) + 2
====
