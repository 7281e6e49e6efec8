---- MODULE MCText ----
(***************************************************************************)
(* All texts of at most L pieces.  Checked: the operational definitions of    *)
(* the splits and filters meet their declarative statements.                 *)
(***************************************************************************)
EXTENDS Gse, Json

CONSTANTS FILE, L, PRINT
Al == JsonDeserialize(FILE)
TrCT == Al.chars
TrXP == Al.xp
SP == Al.sp

VARIABLE h
Init == h = <<>>
Next == \E a \in Idx(Al.syms) :
          /\ Len(h) < L /\ h' = Append(h, a)
          /\ PRINT => PrintT(<<"H", h'>>)
Spec == Init /\ [][Next]_h

T == Concat([k \in Idx(h) |-> Al.syms[h[k]]])
Opts == [al : BOOLEAN, nu : BOOLEAN, an : BOOLEAN]

(* atoms: the operational split is the declared one, and the only one among   *)
(* those with its boundaries changed at one place                            *)
AtomsRight ==
  \A o \in Opts : \A tl \in BOOLEAN :
    LET as == Atoms(T, o, tl) IN
    /\ IsAtoms(T, o, tl, as)
    /\ \A k \in 1..(Len(as) - 1) :
         ~IsAtoms(T, o, tl, SubSeq(as, 1, k-1) \o <<as[k] \o as[k+1]>> \o SubSeq(as, k+2, Len(as)))
    /\ \A k \in Idx(as) : \A j \in 1..(Len(as[k]) - 1) :
         ~IsAtoms(T, o, tl, SubSeq(as, 1, k-1) \o <<SubSeq(as[k], 1, j), SubSeq(as[k], j+1, Len(as[k]))>> \o SubSeq(as, k+1, Len(as)))

IsSub(a, b) ==                       \* a is a subsequence of b
  FoldLeft(LAMBDA k, c : IF k < Len(a) /\ a[k+1] = c THEN k + 1 ELSE k, 0, b) = Len(a)
FiltersRight ==
  LET s == FilterSymbolOf(T)  e == FilterEmojiOf(T)  m == FilterHtmlOf(T)  n == SplitNumOf(T) IN
  /\ IsSub(s, Runes(T)) /\ FilterSymbolOf(s) = s /\ \A k \in Idx(s) : ~Symbolic(s[k])
  /\ IsSub(e, Runes(T)) /\ FilterEmojiOf(e) = e
  /\ IsSub(m, T)
  /\ \A k \in Idx(T) : CT[T[k]].s = "<" /\ TagEnd(T, k) > 0 => Len(m) < Len(T)
  /\ Concat(n) = T /\ \A k \in Idx(n) : n[k] # <<>>
  /\ \A k \in 1..(Len(n) - 1) : CT[Last(n[k])].dg # CT[Head(n[k+1])].dg
  /\ \A k \in Idx(n) : \A j \in Idx(n[k]) : CT[n[k][j]].dg = CT[n[k][1]].dg
  /\ Concat(RangeOf(T)) = Runes(T)
ZonesRight ==                        \* the zones of the HMM cut tile the text
  LET z == Zones(T, 1, "han", "std") IN
  /\ (T = <<>>) = (z = <<>>)
  /\ \A k \in Idx(z) : z[k][2] = (IF k = 1 THEN 1 ELSE z[k-1][3] + 1) /\ z[k][2] <= z[k][3]
  /\ z # <<>> => Last(z)[3] = Len(T)
  /\ \A k \in Idx(z) : \A q \in z[k][2]..z[k][3] : CT[T[q]].han = z[k][1]
  /\ \A k \in 1..(Len(z) - 1) : ~(z[k][1] /\ z[k+1][1])
SplitsRight ==
  /\ JoinWith(SplitBy(T, IsSp), <<SP>>) = [k \in Idx(T) |-> IF IsSp(T[k]) THEN SP ELSE T[k]]
  /\ JoinWith(SplitAt(T, <<SP>>), <<SP>>) = T
  /\ \A k \in Idx(SplitAt(T, <<SP>>)) : \A q \in Idx(SplitAt(T, <<SP>>)[k]) : SplitAt(T, <<SP>>)[k][q] # SP
  /\ \A w \in Ran(Fields(T)) : w # <<>> /\ \A q \in Idx(w) : ~IsSp(w[q])
Inv == AtomsRight /\ FiltersRight /\ ZonesRight /\ SplitsRight
====
