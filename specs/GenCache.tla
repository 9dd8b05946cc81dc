------------------------------ MODULE GenCache ------------------------------
(* Random walks through ArchiveCache: schedules for the real cache.  Between   *)
(* the operations the schedule says when the origin takes a call, when its     *)
(* answer arrives, when it fails, and when a caller gives up.                  *)
EXTENDS ArchiveCache, Json
CONSTANTS Depth, Weights
VARIABLES hist, n
gvars == <<hist, n>>
NInit == RandomElement({1, 2, 3})
GInit == /\ Init /\ n = 0
         /\ hist = <<>>
Busy == { c \in Clients : cl[c].pc # "idle" }
Ready == { c \in Clients : cl[c].pc = "idle" /\ cl[c].left > 0 }
(* what the real operation is called with; several have one meaning in the model *)
OpFor(k) == CASE k \in {"piece", "from", "psize", "parent"} -> "piece" [] k \in {"exists", "size", "fexists"} -> "meta" [] OTHER -> k
Recent == IF lru = <<>> THEN Ids ELSE { lru[k].id : k \in 1..Len(lru) }
DoBegin(c) ==
  \E k \in {Weights[RandomElement(DOMAIN Weights)]}, near \in {RandomElement(1..3)} :
  \E id \in {RandomElement(IF near = 1 /\ Busy # {} THEN { cl[d].id : d \in Busy } ELSE IF near = 2 THEN Recent ELSE Ids)} :
    /\ IF OpFor(k) = "meta" THEN UNCHANGED vars ELSE BeginOp(c, OpFor(k), id)
    /\ hist' = Append(hist, [c |-> c, o |-> [op |-> k, id |-> id, f |-> RandomElement(0..40), off |-> RandomElement({0, 0, 1, 8, 1000})]])
Can(c) == ENABLED Step(c)
Gates(c) == cl[c].pc \in {"origin", "direct", "sorigin", "back", "sback", "size"}
GNext ==
  /\ n < Depth
  /\ IF n = Depth - 1 \/ (Busy = {} /\ Ready = {}) THEN
        /\ n' = Depth /\ PrintT("SCRIPT " \o ToJson([sched |-> hist, clients |-> Cardinality(Clients), sizes |-> Sizes, stored |-> InitStored]))
        /\ UNCHANGED <<vars, hist>>
     ELSE n' = n + 1 /\ \E what \in {RandomElement(1..20)} :
       IF Ready # {} /\ (what <= 7 \/ Busy = {}) THEN \E c \in {RandomElement(Ready)} : DoBegin(c)
       ELSE IF Busy # {} THEN
         \E c \in {RandomElement(Busy)} :
           IF what = 20 /\ cancels > 0 THEN Cancel(c) /\ hist' = Append(hist, [c |-> c, cancel |-> TRUE])
           ELSE IF what >= 18 /\ cl[c].pc \in {"origin", "direct"} THEN Origin(c, TRUE) /\ hist' = Append(hist, [c |-> c, fail |-> TRUE])
           ELSE IF what >= 18 /\ cl[c].pc = "sorigin" THEN StoreOrigin(c, TRUE) /\ hist' = Append(hist, [c |-> c, fail |-> TRUE])
           ELSE IF Can(c) THEN Step(c) /\ hist' = Append(hist, [c |-> c])
           ELSE UNCHANGED <<vars, hist>>
       ELSE UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][GNext]_<<vars, gvars>>
=============================================================================
