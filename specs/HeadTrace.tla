------------------------------ MODULE HeadTrace ------------------------------
(* Decides for recorded concurrent histories of one database whether HeadSpec   *)
(* explains them.  A trace holds many histories, each starting with "hist".     *)
EXTENDS HeadSpec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, poss, ops, par, bad
vars == <<i, poss, ops, par, bad>>
Init == i = 1 /\ poss = {} /\ ops = <<>> /\ par = <<>> /\ bad = TRUE
e == Trace[i]
Say(tags, what) == PrintT("VIOL " \o ToJson([line |-> i, tags |-> tags, what |-> what]))
Tags(o) == {"C10"} \cup (IF o.op = "?" THEN {"C11", "C12"} ELSE IF o.op = "sethead" THEN {"C11"} ELSE IF o.op \in {"create", "delete", "gdelete", "open", "listed"} THEN {"C12"} ELSE {})
Describe(o, r) == o.op \o " returned " \o r.r \o (IF r.r = "ok" /\ o.op \in {"head", "headl", "lget"} THEN " (layer " \o ToString(r.head) \o ", version " \o ToString(r.version) \o ")" ELSE "")
Next ==
  /\ i <= Len(Trace) /\ i' = i + 1
  /\ CASE e.e = "hist" ->
            /\ poss' = Start(IF e.start THEN Fresh ELSE NoDb) /\ ops' = <<>> /\ par' = e.par /\ bad' = FALSE
       [] bad /\ e.e # "hist" -> UNCHANGED <<poss, ops, par, bad>>
       [] ~bad /\ e.e = "inv" ->
            /\ poss' = Invoke(poss, e.c) /\ ops' = (e.c :> e.o) @@ ops /\ UNCHANGED <<par, bad>>
       [] ~bad /\ e.e = "hang" ->
            /\ Say(Tags(IF e.c \in DOMAIN ops THEN ops[e.c] ELSE [op |-> "?"]) \cup {"C17"}, "operation " \o (IF e.c \in DOMAIN ops THEN ops[e.c].op ELSE "?") \o " never returns")
            /\ bad' = TRUE /\ UNCHANGED <<poss, ops, par>>
       [] ~bad /\ e.e = "broken" ->
            /\ Say({"C10", "C11", "C12", "C17"}, "preparing layers and a database failed: " \o e.msg)
            /\ bad' = TRUE /\ UNCHANGED <<poss, ops, par>>
       [] ~bad /\ e.e = "ret" ->
            LET p == Return(par, ops, poss, e.c, e.res) IN
            /\ UNCHANGED <<ops, par>>
            /\ poss' = p /\ bad' = (p = {})
            /\ p # {} \/ Say(Tags(ops[e.c]), "no order of the operations explains that " \o Describe(ops[e.c], e.res) \o (IF "msg" \in DOMAIN e THEN " (" \o e.msg \o ")" ELSE ""))
       [] OTHER -> Assert(FALSE, e)
Spec == Init /\ [][Next]_vars
Accepted == TLCSet(1, i)
AllConsumed == PrintT("DONE " \o ToString(TLCGet(1)) \o " " \o ToString(Len(Trace)))
View == i
=============================================================================
