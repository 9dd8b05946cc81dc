------------------------------ MODULE GenHeads ------------------------------
(* Random walks through Labels with label store calls as the steps: schedules  *)
(* for the real code.                                                          *)
EXTENDS Labels, Json
CONSTANTS Depth, Weights
VARIABLES hist, n
gvars == <<hist, n>>
GInit == Init /\ hist = <<>> /\ n = 0
Busy == { c \in Clients : cl[c].pc # "idle" }
Ready == { c \in Clients : cl[c].pc = "idle" /\ cl[c].left > 0 }
(* recent layers come more often: fast-forwards succeed *)
DoBegin(c) ==
  \E k \in {RandomElement(DOMAIN Weights)}, l \in {RandomElement(Layers)}, dv \in {RandomElement({0, 0, 0, 1, -1})} :
  \E x \in {RandomElement(poss)} :
    LET o == Norm([op |-> Weights[k], l |-> l, v |-> IF x.d.version + dv < 0 THEN 0 ELSE x.d.version + dv, bh |-> cl[c].got.head, bv |-> cl[c].got.version]) IN
    /\ cl' = [cl EXCEPT ![c].pc = First(o), ![c].op = o, ![c].left = @ - 1]
    /\ poss' = Invoke(poss, c)
    /\ KeepF /\ UNCHANGED crashes
    /\ hist' = Append(hist, [c |-> c, o |-> o])
GNext ==
  /\ n < Depth
  /\ IF n = Depth - 1 \/ (Busy = {} /\ Ready = {}) THEN
        /\ n' = Depth /\ PrintT("SCRIPT " \o ToJson([sched |-> hist, par |-> par, clients |-> Cardinality(Clients), start |-> StartDb]))
        /\ UNCHANGED <<vars, hist>>
     ELSE n' = n + 1 /\ \E begin \in {RandomElement({TRUE, FALSE})} :
       IF Ready # {} /\ (begin \/ Busy = {}) THEN \E c \in {RandomElement(Ready)} : DoBegin(c)
       ELSE IF Busy # {} THEN \E c \in {RandomElement(Busy)} : MemStep(c) /\ hist' = Append(hist, [c |-> c])
       ELSE UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][GNext]_<<vars, gvars>>
=============================================================================
