------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* What a process keeps in memory about the files of a store: the labels   *)
(* of a cached label store, and the archives being built.  An operation is *)
(* a sequence of steps on files and on memory; a step on files may fail,   *)
(* upon which the operation stops and reports an error, and the process    *)
(* goes on.  Whatever has failed, memory has to say what the files say,    *)
(* and an operation that does not fail does what it is there for.          *)
(*                                                                         *)
(* Flaw turns on a mistake, to show that the specification notices it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Clients, Names, NLayers, MaxOps, Fails, Flaw

VARIABLES
  disk,     \* label files: name -> version
  cache,    \* the labels the process knows: name -> version
  arcs,     \* archives there are
  constr,   \* archives under construction (readable by the process): a set of layers
  cl,       \* client -> [op, prog, pc, want]
  res,      \* client -> what its last operation returned: [op, ok, refused, failed]
  allowed,  \* name -> the versions its label may have (-1: no label)
  left, fails
vars == <<disk, cache, arcs, constr, cl, res, allowed, left, fails>>

Layers == 1..NLayers
Val(f, n) == IF n \in DOMAIN f THEN f[n] ELSE -1
Put(f, n, v) == IF v = -1 THEN [x \in DOMAIN f \ {n} |-> f[x]] ELSE (n :> v) @@ f

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))

(* steps: mem ones cannot fail; file ones can; "try" ones can too, which nobody minds *)
Build(l) == <<[do |-> "construct", l |-> l]>>
Store(l) == IF Flaw = "takelate" THEN <<[do |-> "tmp"], [do |-> "arc", l |-> l], [do |-> "take", l |-> l]>>
            ELSE <<[do |-> "take", l |-> l], [do |-> "tmp"], [do |-> "arc", l |-> l]>>
Prog(o) ==
  CASE o.op = "create" ->
         IF (o.n \in DOMAIN cache) THEN <<[do |-> "refuse"]>>
         ELSE <<[do |-> "tmp"], [do |-> "link", n |-> o.n], [do |-> IF Flaw = "cleanup" THEN "tmp" ELSE "try"], [do |-> "know", n |-> o.n, v |-> 0]>>
    [] o.op = "delete" ->
         IF o.n \notin DOMAIN cache THEN <<[do |-> "refuse"]>>
         ELSE IF Flaw = "forgetfirst" THEN <<[do |-> "know", n |-> o.n, v |-> -1], [do |-> "unlink", n |-> o.n]>>
         ELSE <<[do |-> "unlink", n |-> o.n], [do |-> "know", n |-> o.n, v |-> -1]>>
    [] o.op = "set" ->
         IF o.n \notin DOMAIN cache THEN <<[do |-> "refuse"]>>
         ELSE LET v == cache[o.n] + 1
              IN IF Flaw = "knowfirst" THEN <<[do |-> "know", n |-> o.n, v |-> v], [do |-> "write", n |-> o.n, v |-> v]>>
                 ELSE <<[do |-> "write", n |-> o.n, v |-> v], [do |-> "know", n |-> o.n, v |-> v]>>
    [] o.op = "commit" -> Build(o.l) \o Store(o.l)
    [] o.op = "import" ->
         LET new == SetSeq({ l \in o.ls : l \notin arcs /\ l \notin constr })
         IN IF Flaw = "alltogether" THEN Cat([k \in 1..Len(new) |-> Build(new[k])]) \o Cat([k \in 1..Len(new) |-> Store(new[k])])
            ELSE Cat([k \in 1..Len(new) |-> Build(new[k]) \o Store(new[k])])

FileSteps == {"tmp", "link", "unlink", "write", "arc", "try"}
Labelling == {"create", "delete", "set"}
NoOp == [op |-> "none"]
Idle == [op |-> NoOp, prog |-> <<>>, pc |-> 1, want |-> -1]
Init ==
  /\ disk = [x \in {} |-> 0] /\ cache = [x \in {} |-> 0] /\ arcs = {} /\ constr = {}
  /\ cl = [c \in Clients |-> Idle] /\ res = [c \in Clients |-> [op |-> NoOp, ok |-> TRUE, refused |-> FALSE, failed |-> FALSE]]
  /\ allowed = [n \in Names |-> {-1}] /\ left = MaxOps /\ fails = 0

Ops == { [op |-> k, n |-> n] : k \in Labelling, n \in Names }
       \cup { [op |-> "commit", l |-> l] : l \in Layers } \cup { [op |-> "import", ls |-> S] : S \in SUBSET Layers \ {{}} }
Busy(k) == \E c \in Clients : cl[c].op.op \in k
Touched(o) == IF o.op = "commit" THEN {o.l} ELSE IF o.op = "import" THEN o.ls ELSE {}
Allowed(o) ==
  \* label operations hold the lock of the cache; imports that of imports; names of new layers are new
  /\ o.op \in Labelling => ~Busy(Labelling)
  /\ o.op = "import" => ~Busy({"import"})
  /\ o.op \in {"commit", "import"} => \A c \in Clients : Touched(cl[c].op) \cap Touched(o) = {}
  /\ o.op = "commit" => o.l \notin arcs \cup constr
Want(o) == CASE o.op = "create" -> 0 [] o.op = "set" -> cache[o.n] + 1 [] OTHER -> -1

Begin(c) ==
  /\ cl[c].prog = <<>> /\ left > 0
  /\ \E o \in Ops :
       /\ Allowed(o)
       /\ LET p == Prog(o)
              refused == p # <<>> /\ p[1].do = "refuse"
          IN IF p = <<>> \/ refused
             THEN /\ res' = [res EXCEPT ![c] = [op |-> o, ok |-> ~refused, refused |-> refused, failed |-> FALSE]]
                  /\ UNCHANGED <<cl, allowed>>
             ELSE /\ cl' = [cl EXCEPT ![c] = [op |-> o, prog |-> p, pc |-> 1, want |-> IF o.op \in Labelling THEN Want(o) ELSE -1]]
                  /\ res' = [res EXCEPT ![c] = [op |-> NoOp, ok |-> TRUE, refused |-> FALSE, failed |-> FALSE]]
                  /\ IF o.op \in Labelling THEN allowed' = [allowed EXCEPT ![o.n] = @ \cup {Want(o)}] ELSE UNCHANGED allowed
  /\ left' = left - 1
  /\ UNCHANGED <<disk, cache, arcs, constr, fails>>

Finish(c, ok, failed) ==
  LET o == cl[c].op
  IN /\ cl' = [cl EXCEPT ![c] = Idle]
     /\ res' = [res EXCEPT ![c] = [op |-> o, ok |-> ok, refused |-> FALSE, failed |-> failed]]
     /\ IF o.op \in Labelling
        \* what it is now is what somebody who looks finds: it stays that
        THEN allowed' = [allowed EXCEPT ![o.n] = IF ok THEN {cl[c].want} ELSE {Val(cache', o.n)}]
        ELSE UNCHANGED allowed

(* one step; if it is one on files, it may fail *)
Do(c, s) ==
  /\ disk' = CASE s.do = "link" -> Put(disk, s.n, 0) [] s.do = "unlink" -> Put(disk, s.n, -1) [] s.do = "write" -> Put(disk, s.n, s.v) [] OTHER -> disk
  /\ cache' = IF s.do = "know" THEN Put(cache, s.n, s.v) ELSE cache
  /\ arcs' = IF s.do = "arc" THEN arcs \cup {s.l} ELSE arcs
  /\ constr' = CASE s.do = "construct" -> constr \cup {s.l} [] s.do = "take" -> constr \ {s.l} [] OTHER -> constr
Step(c) ==
  /\ cl[c].prog # <<>>
  /\ LET s == cl[c].prog[cl[c].pc]
         last == cl[c].pc = Len(cl[c].prog)
     IN \/ /\ ~(s.do = "link" /\ s.n \in DOMAIN disk)
           /\ Do(c, s)
           /\ IF last THEN Finish(c, TRUE, FALSE) ELSE cl' = [cl EXCEPT ![c].pc = @ + 1] /\ UNCHANGED <<res, allowed>>
           /\ UNCHANGED fails
        \/ \* there already: the link cannot be made
           /\ s.do = "link" /\ s.n \in DOMAIN disk
           /\ UNCHANGED <<disk, cache, arcs, constr, fails>>
           /\ Finish(c, FALSE, FALSE)
        \/ /\ s.do \in FileSteps /\ fails < Fails
           /\ fails' = fails + 1
           /\ UNCHANGED <<disk, cache, arcs, constr>>
           /\ IF s.do = "try" THEN (IF last THEN Finish(c, TRUE, FALSE) ELSE cl' = [cl EXCEPT ![c].pc = @ + 1] /\ UNCHANGED <<res, allowed>>)
              ELSE Finish(c, FALSE, TRUE)
  /\ UNCHANGED left

Next == \E c \in Clients : Begin(c) \/ Step(c)
Spec == Init /\ [][Next]_vars
Symmetric == Permutations(Clients) \cup Permutations(Names)
-----------------------------------------------------------------------------
(* when no label operation is going on, the process knows what the files say *)
Agree == ~Busy(Labelling) => cache = disk
(* a label is what it was found to be, or what the operation going on makes it *)
Right == \A n \in Names : Val(disk, n) \in allowed[n] /\ Val(cache, n) \in allowed[n]
(* nothing is left under construction that no operation is going to store *)
NothingLeft == \A l \in constr : \E c \in Clients : l \in Touched(cl[c].op)
(* an operation reports failure only if a call failed, or it has to *)
Honest == \A c \in Clients : ~res[c].ok => res[c].failed \/ res[c].refused
(* what an operation that returned was to store is stored *)
Stored == \A c \in Clients : res[c].ok => Touched(res[c].op) \subseteq arcs
=============================================================================
