---- MODULE Rank ----
(***************************************************************************)
(* Key words: TF-IDF tags and the text rank.                                *)
(***************************************************************************)
EXTENDS Text

Abs(n) == IF n < 0 THEN -n ELSE n
Ran(s) == {s[k] : k \in DOMAIN s}

(* byte-wise order of texts *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
TextLess(a, b) == LexLess(Bytes(a), Bytes(b))

----------------------------------------------------------------------------
(* Tags: cut = the words of the cut; Idf(w) = frequency in quarters.         *)
TagWords(cut, stop) ==
  SelectSeq([k \in Idx(cut) |-> TrimSp(cut[k])], LAMBDA w : Len(w) >= 2 /\ w \notin stop)
Count(s, w) == Len(SelectSeq(s, LAMBDA v : v = w))

(* obs: sequence of [t, w], w the weight in units of 1/10000 *)
TagsOK(cut, stop, Idf(_), k, obs) ==
  LET ws == TagWords(cut, stop)
      cand == Ran(ws)
      total == Len(ws)
      cnt == [w \in cand |-> Count(ws, w)]
      f == [w \in cand |-> Idf(w)]
      prod(w) == cnt[w] * f[w]
      \* v may stand in front of w
      Before(v, w) == \/ prod(v) > prod(w)
                      \/ prod(v) = prod(w) /\ (<<cnt[v], f[v]>> # <<cnt[w], f[w]>> \/ TextLess(w, v))
      n == IF Cardinality(cand) < k THEN Cardinality(cand) ELSE k
  IN /\ Len(obs) = n
     /\ \A i \in Idx(obs) : obs[i].t \in cand
     /\ Cardinality({obs[i].t : i \in Idx(obs)}) = n
     /\ \A i \in Idx(obs) : Abs(obs[i].w * 4 * total - prod(obs[i].t) * 10000) <= 4 * total
     /\ \A i \in 1..(Len(obs) - 1) : Before(obs[i].t, obs[i+1].t)
     /\ n > 0 => \A w \in cand \ {obs[i].t : i \in Idx(obs)} : Before(obs[n].t, w)

----------------------------------------------------------------------------
(* Text rank.  Ranks in units of 1/100000.                                  *)
RU == 100000
Span == 5
Edges(pairs, allow) ==               \* the multiset of directed pairs, as a function to their number
  LET n == Len(pairs)
      ps == FoldLeft(LAMBDA a, i :
              IF pairs[i].p \notin allow THEN a
              ELSE a \o SelectSeq([d \in 1..(Span-1) |-> <<i, i+d>>],
                                  LAMBDA e : e[2] <= n /\ pairs[e[2]].p \in allow),
              <<>>, Ixs(pairs))
      ends(e) == <<pairs[e[1]].t, pairs[e[2]].t>>
  IN FoldLeft(LAMBDA m, e : IF ends(e) \in DOMAIN m THEN [m EXCEPT ![ends(e)] = @ + 1] ELSE (ends(e) :> 1) @@ m,
              [x \in {} |-> 0], ps)

(* weight of the node v seen from u: each edge counts at both of its ends *)
Ranks(m) ==
  LET nodes == {e[1] : e \in DOMAIN m} \cup {e[2] : e \in DOMAIN m}
      order == SetToSortSeq(nodes, TextLess)
      wt == [u \in nodes |-> [v \in nodes |->
               (IF <<u, v>> \in DOMAIN m THEN m[<<u, v>>] ELSE 0) + (IF <<v, u>> \in DOMAIN m THEN m[<<v, u>>] ELSE 0)]]
      out == [u \in nodes |-> FoldLeft(LAMBDA s, v : s + wt[u][v], 0, order)]
      One(r, u) == [r EXCEPT ![u] = 15 * (RU \div 100)
                      + (85 * FoldLeft(LAMBDA s, v : IF wt[u][v] = 0 THEN s
                                         ELSE s + (wt[u][v] * r[v] + out[v] \div 2) \div out[v], 0, order)) \div 100]
      Iter(r) == FoldLeft(One, r, order)
  IN FoldLeft(LAMBDA r, x : Iter(r), [u \in nodes |-> RU \div Cardinality(nodes)], [x \in 1..10 |-> x])

(* the weight of rank w in units of 1/1000000 *)
Norm(w, mn, mx) ==
  LET a == w - mn \div 10
      d == mx - mn \div 10
      q == (a * 1000) \div d
      r == (a * 1000) % d
  IN q * 1000 + (r * 1000) \div d

(* obs: sequence of [t, w], w the weight in units of 1/1000000 *)
RanksOK(pairs, allow, k, obs) ==
  LET m == Edges(pairs, allow)
      r == Ranks(m)
      N == DOMAIN r
      mn == Min({r[u] : u \in N})
      mx == Max({r[u] : u \in N})
      W(u) == Norm(r[u], mn, mx)
      n == IF k > 0 /\ k < Cardinality(N) THEN k ELSE Cardinality(N)
      tol == 300
  IN IF DOMAIN m = {} THEN obs = <<>>
     ELSE /\ Len(obs) = n
          /\ \A i \in Idx(obs) : obs[i].t \in N
          /\ Cardinality({obs[i].t : i \in Idx(obs)}) = n
          /\ \A i \in Idx(obs) : /\ Abs(obs[i].w - W(obs[i].t)) <= tol
                                 /\ obs[i].w > 0 /\ obs[i].w <= 1000000
          /\ obs[1].w = 1000000
          /\ \A i \in 1..(Len(obs) - 1) : obs[i].w >= obs[i+1].w
          /\ \A u \in N \ {obs[i].t : i \in Idx(obs)} : W(u) <= obs[n].w + tol
====
