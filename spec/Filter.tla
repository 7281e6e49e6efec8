---- MODULE Filter ----
(***************************************************************************)
(* Trimming and filtering of texts and lists.  Items of a list are texts,   *)
(* or records [t, p] of text and part of speech.                            *)
(***************************************************************************)
EXTENDS Text

Symbolic(c) == CT[c].sy \/ CT[c].sp \/ CT[c].pu
Blank(c) == CT[c].sp \/ CT[c].pu
(* characters come out of the filters as runes *)
FilterSymbolOf(t) == SelectSeq(Runes(t), LAMBDA c : ~Symbolic(c))
FilterEmojiOf(t) == SelectSeq(Runes(t), LAMBDA c : NB(c) <= 3)
FilterLangOf(t, lang) == SelectSeq(Runes(t), LAMBDA c : CT[c].let \/ (lang # "" /\ CT[c].sc = lang))

HtmlEnd(c) == CT[c].wd \/ CT[c].s \in {"|", "=", "\""}
(* the end of the tag that starts at p, or 0 *)
TagEnd(t, p) ==
  IF CT[t[p]].s # "<" THEN 0
  ELSE LET g == {q \in (p+1)..Len(t) : CT[t[q]].s = ">"} IN
       IF g = {} THEN 0
       ELSE LET e == Min(g) IN IF e > p + 1 /\ HtmlEnd(t[e-1]) THEN e ELSE 0
RECURSIVE FilterHtmlFrom(_, _)
FilterHtmlFrom(t, p) ==
  LET tags == {q \in p..Len(t) : TagEnd(t, q) > 0} IN
  IF tags = {} THEN SubSeq(t, p, Len(t))
  ELSE SubSeq(t, p, Min(tags) - 1) \o FilterHtmlFrom(t, TagEnd(t, Min(tags)) + 1)
FilterHtmlOf(t) == FilterHtmlFrom(t, 1)

SplitNumOf(t) ==
  FoldLeft(LAMBDA a, k : IF k > 1 /\ CT[t[k]].dg = CT[t[k-1]].dg
                         THEN [a EXCEPT ![Len(a)] = Append(@, t[k])]
                         ELSE Append(a, <<t[k]>>), <<>>, Ixs(t))
RangeOf(t) == [k \in Idx(t) |-> <<CT[t[k]].r>>]
RangeTextOf(t, sp) == FoldLeft(LAMBDA a, c : a \o <<CT[c].r, sp>>, <<>>, t)

----------------------------------------------------------------------------
(* stop: the set of stop words; ns: NotStop                                  *)
TrimOf(l, stop, ns) ==
  SelectSeq([k \in Idx(l) |-> FilterSymbolOf(l[k])], LAMBDA x : x # <<>> /\ (ns \/ x \notin stop))
TrimSymbolOf(l) == SelectSeq([k \in Idx(l) |-> FilterSymbolOf(l[k])], LAMBDA x : x # <<>>)
TrimPosOf(l, stop, ns) ==
  SelectSeq(l, LAMBDA x : LET y == FilterSymbolOf(x.t) IN y # <<>> /\ (ns \/ y \notin stop))
TrimPunctOf(l) == SelectSeq(l, LAMBDA x : \E k \in Idx(x) : ~Blank(CT[x[k]].r))
TrimPosPunctOf(l, stop, ns) ==
  SelectSeq(l, LAMBDA x : x.t # <<>> /\ (ns \/ x.t \notin stop) /\ ~Blank(CT[x.t[1]].r))
TrimWithPosOf(l, ps) == SelectSeq(l, LAMBDA x : \A k \in Idx(ps) : x.p # ps[k])
StopOf(l, stop) == SelectSeq(l, LAMBDA x : x # <<>> /\ x \notin stop)
====
