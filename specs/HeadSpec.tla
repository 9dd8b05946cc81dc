------------------------------ MODULE HeadSpec ------------------------------
(***************************************************************************)
(* One database seen by concurrent clients: the sequential meaning of      *)
(* every operation on it (Point/SetHead/ForceHead/... of TerminusStore as  *)
(* functions from a state to the possible results and next states), and a  *)
(* monitor deciding whether a concurrent history is explained by executing *)
(* the operations one at a time, each at some moment between its start     *)
(* and its end (linearizability).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoLayer == 0
NoDb == [ex |-> FALSE, head |-> NoLayer, version |-> 0]
Fresh == [ex |-> TRUE, head |-> NoLayer, version |-> 0]
Next1(d, l) == [ex |-> TRUE, head |-> l, version |-> d.version + 1]

(* par: layer -> parent *)
RECURSIVE Above(_, _)
Above(par, l) == IF l = NoLayer THEN {} ELSE {l} \cup Above(par, par[l])
Ff(par, d, l) == d.head = NoLayer \/ d.head \in Above(par, l)

R(s) == [r |-> s, head |-> NoLayer, version |-> 0]
Val(d) == [r |-> "ok", head |-> d.head, version |-> d.version]

(* what operation o may do in state d; inter: another operation changed the database since o began *)
Lin(par, o, d, inter) ==
  CASE o.op = "create" -> IF d.ex THEN {<<R("err"), d>>} ELSE {<<R("ok"), Fresh>>}
    [] o.op = "delete" -> IF d.ex THEN {<<R("yes"), NoDb>>} ELSE {<<R("no"), d>>}
    [] o.op = "gdelete" -> IF d.ex THEN {<<R("ok"), NoDb>>} ELSE {<<R("ok"), d>>, <<R("err"), d>>}
    [] o.op = "open" -> {<<R(IF d.ex THEN "yes" ELSE "no"), d>>}
    [] o.op = "listed" -> {<<R(IF d.ex THEN "yes" ELSE "no"), d>>}
    [] o.op = "head" -> IF d.ex THEN {<<Val(d), d>>} ELSE {<<R("err"), d>>}
    [] o.op = "headl" -> IF d.ex THEN {<<[Val(d) EXCEPT !.version = 0], d>>} ELSE {<<R("err"), d>>}
    [] o.op = "lget" -> IF d.ex THEN {<<Val(d), d>>} ELSE {<<R("no"), d>>}
    [] o.op = "sethead" ->
         IF ~d.ex THEN {<<R("err"), d>>}
         ELSE (IF Ff(par, d, o.l) THEN {<<R("yes"), Next1(d, o.l)>>} ELSE {<<R("no"), d>>})
              \cup (IF inter THEN {<<R("no"), d>>} ELSE {})
    [] o.op = "force" -> IF d.ex THEN {<<R("ok"), Next1(d, o.l)>>} ELSE {<<R("err"), d>>}
    [] o.op = "forcev" ->
         IF ~d.ex THEN {<<R("err"), d>>}
         ELSE IF d.version = o.v THEN {<<R("yes"), Next1(d, o.l)>>} ELSE {<<R("no"), d>>}
    [] o.op \in {"lset", "lclear"} ->   \* based on the pair (o.bh, o.bv) read earlier
         IF ~d.ex THEN {<<R("err"), d>>}
         ELSE IF d.head = o.bh /\ d.version = o.bv THEN {<<R("yes"), Next1(d, IF o.op = "lset" THEN o.l ELSE NoLayer)>>}
         ELSE {<<R("no"), d>>}

-----------------------------------------------------------------------------
(* the monitor: a set of explanations; each is a state and the status of every operation under way *)
Start(d) == { [d |-> d, p |-> [x \in {} |-> 0]] }

Invoke(poss, c) == { [x EXCEPT !.p = (c :> [done |-> FALSE, res |-> R("none"), inter |-> FALSE]) @@ @] : x \in poss }

(* explanations that arise by letting one more operation under way take effect *)
More(par, ops, x) ==
  UNION { { [d |-> y[2],
             p |-> [c \in DOMAIN x.p |-> IF c = k THEN [done |-> TRUE, res |-> y[1], inter |-> x.p[k].inter]
                                          ELSE IF y[2] # x.d THEN [x.p[c] EXCEPT !.inter = TRUE] ELSE x.p[c]]]
            : y \in Lin(par, ops[k], x.d, x.p[k].inter) }
          : k \in { c \in DOMAIN x.p : ~x.p[c].done } }
RECURSIVE Closure(_, _, _)
Closure(par, ops, S) ==
  LET T == S \cup UNION { More(par, ops, x) : x \in S }
  IN IF T = S THEN S ELSE Closure(par, ops, T)

Without(p, c) == [k \in (DOMAIN p) \ {c} |-> p[k]]
(* c's operation returned r *)
Return(par, ops, poss, c, r) ==
  { [x EXCEPT !.p = Without(@, c)] : x \in { y \in Closure(par, ops, poss) : y.p[c].done /\ y.p[c].res = r } }
(* everything under way is cut off by a crash: it took effect or it did not *)
Cut(par, ops, poss) == { [d |-> x.d, p |-> [k \in {} |-> 0]] : x \in Closure(par, ops, poss) }
=============================================================================
