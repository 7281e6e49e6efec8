---- MODULE MCLock ----
(***************************************************************************)
(* The protocol that shared state is changed and read under: a lock for many  *)
(* readers or one writer around a value of CELLS parts (the four tables of    *)
(* the HMM model; the trie, the tokens and the distances of the server's      *)
(* dictionary).  A writer changes the parts one by one: MODE "swap" puts its   *)
(* own value, "edit" adds to what it reads.  Every reader must see, in all     *)
(* parts, one value that was the current one at some moment of its call.      *)
(* FAULT leaves a part of the protocol out; then TLC must find a bad read.     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS CELLS, WRITERS, READERS, MODE, FAULT, L

Ws == 1..WRITERS
Rs == 1..READERS
VARIABLES cell, wlock, rlock, w, r, cur
vars == <<cell, wlock, rlock, w, r, cur>>

Init == /\ cell = [c \in 1..CELLS |-> {}]
        /\ wlock = 0 /\ rlock = {}
        /\ w = [k \in Ws |-> [pc |-> "idle", at |-> 1, n |-> 0, tmp |-> {}]]
        /\ r = [k \in Rs |-> [pc |-> "idle", at |-> 1, n |-> 0, seen |-> <<>>, during |-> {}]]
        /\ cur = {}
Each == FAULT = "each"
WLocks == FAULT # "nowrite"
RLocks == FAULT # "noread"
New(k, old) == IF MODE = "swap" THEN {<<k, w[k].n>>} ELSE old \cup {<<k, w[k].n>>}

WStart(k) == /\ w[k].pc = "idle" /\ w[k].n < L
             /\ w' = [w EXCEPT ![k].pc = "lock", ![k].n = @ + 1, ![k].at = 1]
             /\ UNCHANGED <<cell, wlock, rlock, r, cur>>
WLock(k) == /\ w[k].pc = "lock"
            /\ WLocks => wlock = 0 /\ rlock = {}
            /\ wlock' = IF WLocks THEN k ELSE wlock
            /\ w' = [w EXCEPT ![k].pc = "read"]
            /\ UNCHANGED <<cell, rlock, r, cur>>
WRead(k) == /\ w[k].pc = "read"
            /\ w' = [w EXCEPT ![k].pc = "write", ![k].tmp = cell[w[k].at]]
            /\ UNCHANGED <<cell, wlock, rlock, r, cur>>
WWrite(k) ==
  LET c == w[k].at  last == c = CELLS IN
  /\ w[k].pc = "write"
  /\ cell' = [cell EXCEPT ![c] = New(k, w[k].tmp)]
  /\ w' = [w EXCEPT ![k].pc = IF last THEN "unlock" ELSE IF Each THEN "next" ELSE "read", ![k].at = IF last THEN c ELSE c + 1]
  \* the change takes effect with its last part
  /\ cur' = IF last THEN New(k, cur) ELSE cur
  /\ r' = IF last THEN [x \in Rs |-> IF r[x].pc = "idle" THEN r[x] ELSE [r[x] EXCEPT !.during = @ \cup {New(k, cur)}]] ELSE r
  /\ UNCHANGED <<wlock, rlock>>
WNext(k) == /\ w[k].pc = "next"          \* the fault "each": the lock is given up between the parts
            /\ wlock' = 0 /\ w' = [w EXCEPT ![k].pc = "lock"]
            /\ UNCHANGED <<cell, rlock, r, cur>>
WUnlock(k) == /\ w[k].pc = "unlock"
              /\ wlock' = IF WLocks THEN 0 ELSE wlock
              /\ w' = [w EXCEPT ![k].pc = "idle"]
              /\ UNCHANGED <<cell, rlock, r, cur>>

RStart(k) == /\ r[k].pc = "idle" /\ r[k].n < L
             /\ r' = [r EXCEPT ![k] = [pc |-> "lock", at |-> 1, n |-> @.n + 1, seen |-> <<>>, during |-> {cur}]]
             /\ UNCHANGED <<cell, wlock, rlock, w, cur>>
RLock(k) == /\ r[k].pc = "lock"
            /\ RLocks => wlock = 0
            /\ rlock' = IF RLocks THEN rlock \cup {k} ELSE rlock
            /\ r' = [r EXCEPT ![k].pc = "read"]
            /\ UNCHANGED <<cell, wlock, w, cur>>
RRead(k) == LET c == r[k].at  last == c = CELLS IN
            /\ r[k].pc = "read"
            /\ r' = [r EXCEPT ![k].seen = Append(@, cell[c]), ![k].at = c + 1, ![k].pc = IF last THEN "unlock" ELSE "read"]
            /\ UNCHANGED <<cell, wlock, rlock, w, cur>>
RUnlock(k) == /\ r[k].pc = "unlock"
              /\ rlock' = rlock \ {k}
              /\ r' = [r EXCEPT ![k].pc = "idle"]
              /\ UNCHANGED <<cell, wlock, w, cur>>
Next == \/ \E k \in Ws : WStart(k) \/ WLock(k) \/ WRead(k) \/ WWrite(k) \/ WNext(k) \/ WUnlock(k)
        \/ \E k \in Rs : RStart(k) \/ RLock(k) \/ RRead(k) \/ RUnlock(k)
Spec == Init /\ [][Next]_vars
FairSpec == /\ Spec
            /\ \A k \in Ws : SF_vars(WLock(k)) /\ WF_vars(WRead(k) \/ WWrite(k) \/ WNext(k) \/ WUnlock(k))
            /\ \A m \in Rs : SF_vars(RLock(m)) /\ WF_vars(RRead(m) \/ RUnlock(m))

Atomic == \A k \in Rs : r[k].pc = "unlock" =>
             \E v \in r[k].during : \A c \in 1..CELLS : r[k].seen[c] = v
Settled == (\A k \in Ws : w[k].pc = "idle") => \A c \in 1..CELLS : cell[c] = cur
Lost == MODE = "edit" => \A k \in Ws : w[k].pc = "idle" => \A n \in 1..w[k].n : <<k, n>> \in cur
Inv == Atomic /\ Settled /\ Lost
Ends == \A k \in Ws : w[k].pc = "lock" ~> w[k].pc = "idle"
====
