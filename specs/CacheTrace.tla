----------------------------- MODULE CacheTrace -----------------------------
(* Decides for recorded histories of the real archive cache whether CacheSpec  *)
(* allows every answer, and whether the cache ever held more than its limit.   *)
EXTENDS CacheSpec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, a, ops, h, bad
vars == <<i, a, ops, h, bad>>
Init == i = 1 /\ a = Start({}) /\ ops = Empty /\ h = 0 /\ bad = TRUE
e == Trace[i]
Say(what) == PrintT("VIOL " \o ToJson([line |-> i, tags |-> {"C16"}, what |-> what]))
ToSet(s) == { s[k] : k \in 1..Len(s) }
(* h: the description of this history: limit, per layer its size, parent and the sizes of its structures (-1: it has no such structure) *)
Piece(o) == h.pieces[o.id][o.f + 1]
Right(o, r) ==
  CASE o.op = "get" -> r.r = "ok" /\ r.d = o.id
    [] o.op = "piece" -> IF Piece(o) = -1 THEN r.r = "none" ELSE r.r = "ok" /\ r.d = o.id
    [] o.op = "from" -> IF Piece(o) = -1 THEN r.r = "err" /\ r.d = 0 /\ r.k = "NotFound" ELSE r.r = "ok" /\ r.d = o.id
    [] o.op = "psize" -> IF Piece(o) = -1 THEN r.r = "err" /\ r.k = "NotFound" ELSE r.r = "ok" /\ r.d = Piece(o)
    [] o.op = "parent" -> IF h.parent[o.id] = 0 THEN r.r = "none" ELSE r.r = "ok" /\ r.d = h.parent[o.id]
    [] o.op = "exists" -> r.r = "yes"
    [] o.op = "fexists" -> r.r = (IF Piece(o) = -1 THEN "no" ELSE "yes")
    [] o.op = "size" -> r.r = "ok" /\ r.d = h.sizes[o.id]
    [] o.op = "store" -> r.r = "ok"
Missing(o, r) ==
  CASE o.op \in {"exists", "fexists"} -> r.r = "no"
    [] o.op = "store" -> FALSE
    [] OTHER -> r.r = "err" /\ r.k = "NotFound"
Allowed(c, r) ==
  LET o == ops[c] IN
  \/ MayAnswer(a, c) /\ Right(o, r)
  \/ MayMiss(a, c) /\ Missing(o, r)
  \/ r.r = "err" /\ MayFail(a, c, r.k)
Describe(o, r) == o.op \o " of layer " \o ToString(o.id) \o
  (CASE r.r = "err" -> " failed (" \o r.k \o ")"
     [] r.r = "panic" -> " panicked (" \o r.k \o ")"
     [] r.r = "ok" /\ o.op \in {"get", "piece", "from"} -> IF r.d = o.id THEN " answered for a layer that is not there" ELSE " returned wrong bytes"
     [] OTHER -> " returned " \o r.r \o (IF "d" \in DOMAIN r THEN " " \o ToString(r.d) ELSE ""))
HeldTotal == Total([k \in 1..Len(h.sizes) |-> h.sizes[k]], ToSet(e.res))
Next ==
  /\ i <= Len(Trace) /\ i' = i + 1
  /\ CASE e.e = "hist" -> a' = Start(ToSet(e.stored)) /\ ops' = Empty /\ h' = e /\ bad' = FALSE
       [] bad /\ e.e # "hist" -> UNCHANGED <<a, ops, h, bad>>
       [] ~bad /\ e.e = "inv" -> a' = Begin(a, e.c, e.o.id) /\ ops' = (e.c :> e.o) @@ ops /\ UNCHANGED <<h, bad>>
       [] ~bad /\ e.e = "fail" -> a' = Fail(a, e.c, e.id, e.k) /\ UNCHANGED <<ops, h, bad>>
       [] ~bad /\ e.e = "stored" -> a' = Stored(a, e.id) /\ UNCHANGED <<ops, h, bad>>
       [] ~bad /\ e.e = "cancel" -> a' = End(a, e.c) /\ UNCHANGED <<ops, h, bad>>
       [] ~bad /\ e.e = "ret" ->
            /\ bad' = ~Allowed(e.c, e.res) /\ a' = End(a, e.c) /\ UNCHANGED <<ops, h>>
            /\ Allowed(e.c, e.res) \/ Say(Describe(ops[e.c], e.res))
       [] ~bad /\ e.e = "hang" -> bad' = TRUE /\ UNCHANGED <<a, ops, h>> /\ Say((IF e.c \in DOMAIN ops THEN ops[e.c].op \o " of layer " \o ToString(ops[e.c].id) ELSE "an operation on the cache") \o " never returns")
       [] ~bad /\ e.e = "broken" -> bad' = TRUE /\ UNCHANGED <<a, ops, h>> /\ Say("using the cache failed: " \o e.msg)
       [] ~bad /\ e.e = "held" ->      \* what the cache answers for without the origin, and the bytes nobody else can be keeping
            LET over == HeldTotal > h.limit \/ e.live > h.limit IN
            /\ bad' = over /\ UNCHANGED <<a, ops, h>>
            /\ ~over \/ Say("the cache holds " \o ToString(IF HeldTotal > e.live THEN HeldTotal ELSE e.live) \o " bytes, its limit is " \o ToString(h.limit))
       [] OTHER -> Assert(FALSE, e)
Spec == Init /\ [][Next]_vars
Accepted == TLCSet(1, i)
AllConsumed == PrintT("DONE " \o ToString(TLCGet(1)) \o " " \o ToString(Len(Trace)))
View == i
=============================================================================
