---- MODULE Dict ----
(***************************************************************************)
(* The dictionary of one segmenter, as a value.                             *)
(*   nil    no dictionary has been made yet (or it was emptied)             *)
(*   toks   every addition that took effect, in order: [w, a, f, p] = word, *)
(*          its atoms, frequency in quarters, part of speech                *)
(*   live   present word -> index in toks                                   *)
(*   tot    sum of the frequencies of toks;  mx longest word in atoms,      *)
(*   mxc    in characters                                                   *)
(*   ncal   number of tokens at the last cost calculation, and the          *)
(*   slive, stot, smx   live words, total and mx at that moment             *)
(***************************************************************************)
EXTENDS Text, Log2

NoFun == [x \in {} |-> 0]
NilD == [nil |-> TRUE, toks |-> <<>>, live |-> NoFun, tot |-> 0, mx |-> 0, mxc |-> 0,
         ncal |-> 0, slive |-> NoFun, stot |-> 0, smx |-> 0]
NewD == [NilD EXCEPT !.nil = FALSE]

Has(D, w) == w \in DOMAIN D.live
BadWord(w) == w = <<>> \/ HasNul(w)

AddD(D, t, o, tl, f, p) ==
  LET as == Atoms(t, o, tl)
      w == AtomText(t, o, tl)
  IN IF BadWord(w) \/ Has(D, w) THEN D
     ELSE [D EXCEPT !.toks = Append(@, [w |-> w, a |-> as, f |-> f, p |-> p]),
                    !.live = (w :> Len(D.toks) + 1) @@ @,
                    !.tot = @ + f,
                    !.mx = IF Len(as) > @ THEN Len(as) ELSE @,
                    !.mxc = IF Len(w) > @ THEN Len(w) ELSE @]
AddErr(t, o, tl) == BadWord(AtomText(t, o, tl))

RemD(D, t, o, tl) ==
  LET w == AtomText(t, o, tl)
  IN IF Has(D, w) THEN [D EXCEPT !.live = [v \in DOMAIN D.live \ {w} |-> D.live[v]]] ELSE D
RemErr(D, t, o, tl) == ~Has(D, AtomText(t, o, tl))

CalcD(D) == IF D.nil THEN D
            ELSE [D EXCEPT !.ncal = Len(D.toks), !.slive = D.live, !.stot = D.tot, !.smx = D.mx]

(* b is a proper prefix of some present word, byte-wise *)
ProperPrefix(D, w) ==
  LET b == Bytes(w)
  IN \E v \in DOMAIN D.live :
       LET c == Bytes(v) IN Len(c) > Len(b) /\ SubSeq(c, 1, Len(b)) = b

NotFound == [f |-> 0, p |-> <<>>, ok |-> FALSE]
FindD(D, w) ==
  IF w = <<>> \/ HasNul(w) THEN NotFound
  ELSE IF Has(D, w) THEN LET k == D.toks[D.live[w]] IN [f |-> k.f, p |-> k.p, ok |-> TRUE]
  ELSE IF ProperPrefix(D, w) THEN [f |-> 0, p |-> <<>>, ok |-> TRUE]
  ELSE NotFound

FreqD(D, w) == IF Has(D, w) THEN D.toks[D.live[w]].f ELSE 0   \* 0 also for a word of frequency 0
PosD(D, w) == D.toks[D.live[w]].p

----------------------------------------------------------------------------
(* Invariants of a dictionary value (checked on the models). *)
DictInv(D) ==
  /\ \A w \in DOMAIN D.live : D.toks[D.live[w]].w = w /\ ~BadWord(w)
  /\ D.nil => D = NilD
  /\ D.tot = FoldLeft(LAMBDA s, k : s + k.f, 0, D.toks)
  /\ \A k \in Idx(D.toks) : Len(D.toks[k].a) <= D.mx /\ Len(D.toks[k].w) <= D.mxc
  /\ \A k \in Idx(D.toks) : Concat(D.toks[k].a) = D.toks[k].w
  /\ D.ncal <= Len(D.toks)
====
