------------------------------ MODULE CacheSpec ------------------------------
(***************************************************************************)
(* What a reader of archives through the archive cache may be told.  The   *)
(* contents of an archive never change once stored, so an answer is right  *)
(* or wrong by itself, except that                                         *)
(*  - a layer exists from the moment its store took effect at the origin   *)
(*    (a read under way at that moment may or may not see it),             *)
(*  - a read may report a failure of the origin only if that failure       *)
(*    happened to this read, or to another one of the same layer that had  *)
(*    not returned yet when this read began (reads of one layer may share  *)
(*    a lookup); afterwards a failure must not be remembered.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
(* stored: layers in the origin; pend: client -> the operation it is in; failing: client -> kinds of failure it met in this operation *)
Start(stored) == [stored |-> stored, pend |-> Empty]
Without(f, c) == [x \in DOMAIN f \ {c} |-> f[x]]

Begin(a, c, id) ==
  [a EXCEPT !.pend = (c :> [id |-> id, had |-> id \in a.stored, own |-> {},
                            errs |-> UNION { a.pend[d].own : d \in { d \in DOMAIN a.pend : a.pend[d].id = id } }]) @@ a.pend]
(* a call of client c to the origin about layer id failed *)
Fail(a, c, id, kind) ==
  [a EXCEPT !.pend = [d \in DOMAIN a.pend |->
      IF d = c THEN [a.pend[d] EXCEPT !.own = @ \cup {kind}, !.errs = @ \cup {kind}]
      ELSE IF a.pend[d].id = id THEN [a.pend[d] EXCEPT !.errs = @ \cup {kind}] ELSE a.pend[d]]]
Stored(a, id) == [a EXCEPT !.stored = @ \cup {id}]
End(a, c) == [a EXCEPT !.pend = Without(@, c)]

(* may the operation of client c now answer with the right data / that there is no such layer / with this failure *)
MayAnswer(a, c) == a.pend[c].id \in a.stored
MayMiss(a, c) == ~a.pend[c].had
MayFail(a, c, kind) == kind \in a.pend[c].errs

RECURSIVE Total(_, _)
Total(size, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN size[x] + Total(size, S \ {x})
=============================================================================
