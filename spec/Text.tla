---- MODULE Text ----
(***************************************************************************)
(* Texts.  A text is a sequence of character numbers; CT describes each     *)
(* character: its UTF-8 bytes and its Unicode classes.  An invalid byte is  *)
(* a character of its own.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC

CONSTANT CT     \* sequence of records, one per character:
                \*  by   UTF-8 bytes                let, num, pu, sp, sy  Unicode letter, number, punct, space, symbol
                \*  han, jp  Han; Hiragana or Katakana   an, dg, wd  ASCII alphanumeric, digit, word character
                \*  low  the character with ASCII letters lowered
                \*  ul   its rune, lowered by Unicode rules (an invalid byte's rune is U+FFFD)
                \*  r    its rune
                \*  s    the character itself, if it is printable ASCII
                \*  sc   its Unicode script

Idx(t) == 1..Len(t)
Ixs(t) == [k \in 1..Len(t) |-> k]
Tup(v) == LET w == TLCEval(v) IN SubSeq(w, 1, Len(w))   \* evaluated once, as a tuple
Map(t, F(_)) == Tup([k \in 1..Len(t) |-> F(t[k])])
NB(c) == Len(CT[c].by)
Bytes(t) == FoldLeft(LAMBDA a, c : a \o CT[c].by, <<>>, t)
NBytes(t) == FoldLeft(LAMBDA a, c : a + NB(c), 0, t)
Runes(t) == Map(t, LAMBDA c : CT[c].r)
ULow(t) == Map(t, LAMBDA c : CT[c].ul)
Str(t) == FoldLeft(LAMBDA a, c : a \o CT[c].s, "", t)
HasNul(t) == \E k \in 1..Len(t) : CT[t[k]].by = <<0>>
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Texts(ss) == [k \in 1..Len(ss) |-> ss[k].t]
Keep(s, P(_)) == SelectSeq(s, P)

(* the text that the rune-based cuts see *)
RuneText(t, low) == IF low THEN ULow(t) ELSE Runes(t)

----------------------------------------------------------------------------
(* Atoms.  o: al, nu, an the options Alpha, Num, AlphaNum; tl is ToLower.   *)
RunCh(c, o) == /\ NB(c) <= 2
               /\ \/ CT[c].let /\ ~o.al
                  \/ CT[c].num /\ ~o.nu

AtomText(t, o, tl) == Map(t, LAMBDA c : IF tl /\ RunCh(c, o) THEN CT[c].low ELSE c)

(* the atoms as pairs <<first, last>> of positions *)
AtomPos(t, o) ==
  LET st == SelectSeq(Tup(Ixs(t)), LAMBDA k : k = 1 \/ o.an \/ ~RunCh(t[k], o) \/ ~RunCh(t[k-1], o))
  IN Tup([i \in 1..Len(st) |-> <<st[i], IF i = Len(st) THEN Len(t) ELSE st[i+1] - 1>>])

Atoms(t, o, tl) == LET x == AtomText(t, o, tl)
                       p == AtomPos(t, o)
                   IN Tup([k \in 1..Len(p) |-> SubSeq(x, p[k][1], p[k][2])])

(* The same, declaratively: the pieces concatenate to the text, a piece of    *)
(* several characters is a run, and two neighbouring pieces are not one run.  *)
IsAtoms(t, o, tl, as) ==
  /\ Concat(as) = AtomText(t, o, tl)
  /\ \A k \in Idx(as) : /\ as[k] # <<>>
                        /\ Len(as[k]) > 1 => \A j \in Idx(as[k]) : RunCh(as[k][j], o)
                        /\ o.an => Len(as[k]) = 1
  /\ ~o.an => \A k \in 1..(Len(as)-1) : ~(RunCh(Last(as[k]), o) /\ RunCh(Head(as[k+1]), o))

DefOpts == [al |-> FALSE, nu |-> FALSE, an |-> FALSE]

----------------------------------------------------------------------------
(* Splitting and trimming of raw text, as the dictionary readers do.          *)
IsCh(c, s) == CT[c].s = s
IsNL(c) == CT[c].by = <<10>>
IsCR(c) == CT[c].by = <<13>>
IsSp(c) == CT[c].sp

(* split at every occurrence of the non-empty text d *)
RECURSIVE SplitAt(_, _)
SplitAt(t, d) ==
  LET hits == {k \in 1..(Len(t) - Len(d) + 1) : SubSeq(t, k, k + Len(d) - 1) = d}
  IN IF hits = {} THEN <<t>>
     ELSE LET k == Min(hits) IN <<SubSeq(t, 1, k-1)>> \o SplitAt(SubSeq(t, k + Len(d), Len(t)), d)

SplitBy(t, P(_)) ==                  \* at every single character with P
  LET at == <<0>> \o SelectSeq(Tup(Ixs(t)), LAMBDA k : P(t[k]))
  IN Tup([i \in 1..Len(at) |-> SubSeq(t, at[i] + 1, IF i = Len(at) THEN Len(t) ELSE at[i+1] - 1)])

TrimL(t, P(_)) == LET m == FoldLeft(LAMBDA a, k : IF a > 0 \/ P(t[k]) THEN a ELSE k, 0, Ixs(t))
                  IN IF m = 0 THEN <<>> ELSE SubSeq(t, m, Len(t))
TrimR(t, P(_)) == LET m == FoldLeft(LAMBDA a, k : IF P(t[k]) THEN a ELSE k, 0, Ixs(t))
                  IN SubSeq(t, 1, m)
TrimSp(t) == TrimR(TrimL(t, IsSp), IsSp)

Fields(t) == SelectSeq(SplitBy(t, IsSp), LAMBDA x : x # <<>>)

JoinWith(ss, sep) ==
  FoldLeft(LAMBDA a, k : IF k = 1 THEN ss[1] ELSE a \o sep \o ss[k], <<>>, Ixs(ss))
====
