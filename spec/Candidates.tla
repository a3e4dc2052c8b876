------------------------------ MODULE Candidates ------------------------------
(***************************************************************************)
(* Path candidates: the depth-first enumeration of every sequence of       *)
(* object indices, of each order in turn, as a state machine; and the set  *)
(* it must produce.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* Every object sequence of length k with no object twice in a row. *)
Walks(allowed, k) ==
  { c \in [1..k -> allowed] : \A i \in 1..(k - 1) : c[i] # c[i + 1] }
AllWalks(allowed, lo, hi) == UNION { Walks(allowed, k) : k \in lo..hi }

(* How many: 1 for k = 0, m * (m - 1)^(k - 1) otherwise. *)
RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)
NWalks(m, k) == IF k = 0 THEN 1 ELSE IF m = 0 THEN 0 ELSE m * IPow(m - 1, k - 1)
RECURSIVE NAllWalks(_, _, _)
NAllWalks(m, lo, hi) == IF lo > hi THEN 0 ELSE NWalks(m, lo) + NAllWalks(m, lo + 1, hi)
=============================================================================
