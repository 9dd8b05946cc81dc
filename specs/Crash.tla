-------------------------------- MODULE Crash --------------------------------
(***************************************************************************)
(* What operations do to the files of a directory (Kind "dir") or archive  *)
(* ("arc") store, call by call, and what is left when the process is       *)
(* killed between two of them.  An operation is a sequence of file steps   *)
(* (Prog); clients work through theirs at the same time; Crash stops all   *)
(* of them.  Read* say what somebody opening the store finds.              *)
(*                                                                         *)
(* Since the invariants hold in every state, they hold in every state a    *)
(* crash can leave; since operations begun after a crash are checked as    *)
(* well, interrupted ones can be repeated.                                 *)
(*                                                                         *)
(* Flaw turns on a mistake, to show that the specification notices it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Kind, Clients, NLayers, MaxOps, Crashes, OpKinds, Flaw

VARIABLES
  files,    \* path -> contents
  cl,       \* client -> [op, prog, pc] (empty program: idle)
  acked,    \* layers whose commit (or import) returned
  rolls,    \* layers that are rollups: rollup -> layer it stands for
  val,      \* what the database is: the last completed update (NoDb if none)
  maybe,    \* what it may be as well: updates in progress or interrupted
  used,     \* layers names in use
  left, crashes
vars == <<files, cl, acked, rolls, val, maybe, used, left, crashes>>

Parts == {1, 2}
Layers == 1..NLayers
Rolls == (NLayers + 1)..(2 * NLayers)
(* layer l's parent is l \div 2 (0: none); its content is l itself: all that matters is which layer one gets to see *)
Par(l) == l \div 2
NoDb == [head |-> -1, version |-> -1]
Empty == [x \in {} |-> 0]

Has(p) == p \in DOMAIN files
With(p, c) == (p :> c) @@ files
Without(p) == [x \in DOMAIN files \ {p} |-> files[x]]
Torn == -9
TornLabel == [head |-> -2, version |-> -2]

-----------------------------------------------------------------------------
(* what a reader finds *)
Complete(l, c) == IF Kind = "dir" THEN \A p \in Parts : Has(<<"part", l, p>>) /\ files[<<"part", l, p>>] = c
                  ELSE Has(<<"arc", l>>) /\ files[<<"arc", l>>] = c
Exists(l) == IF Kind = "dir" THEN Has(<<"dir", l>>) ELSE Has(<<"arc", l>>)

(* reading layer l: through its rollup if one is registered, else its own files and its parent's *)
RECURSIVE ReadOK(_)
ReadOK(l) ==
  IF l = 0 THEN TRUE
  ELSE IF Has(<<"roll", l>>)
       THEN LET r == files[<<"roll", l>>] IN r # Torn /\ Complete(r, l)
       ELSE Complete(l, l) /\ ReadOK(Par(l))

Listed == IF Has(<<"label">>) THEN files[<<"label">>] ELSE NoDb

-----------------------------------------------------------------------------
(* programs *)
Tmp(c) == <<"tmp", c>>
LayerFiles(c, l, content) ==
  IF Kind = "dir"
  THEN <<[do |-> "put", p |-> <<"dir", l>>, v |-> 0]>>
       \o [k \in 1..(2 * Cardinality(Parts)) |->
             [do |-> "put", p |-> <<"part", l, (k + 1) \div 2>>, v |-> IF k % 2 = 1 THEN Torn ELSE content]]
  ELSE IF Flaw = "inplace"
       THEN <<[do |-> "put", p |-> <<"arc", l>>, v |-> Torn], [do |-> "put", p |-> <<"arc", l>>, v |-> content]>>
       ELSE <<[do |-> "put", p |-> Tmp(c), v |-> Torn], [do |-> "put", p |-> Tmp(c), v |-> content], [do |-> "rename", p |-> Tmp(c), q |-> <<"arc", l>>]>>
RollFile(c, l, r) ==
  IF Flaw = "rollinplace"
  THEN <<[do |-> "put", p |-> <<"roll", l>>, v |-> Torn], [do |-> "put", p |-> <<"roll", l>>, v |-> r]>>
  ELSE <<[do |-> "put", p |-> Tmp(c), v |-> Torn], [do |-> "put", p |-> Tmp(c), v |-> r], [do |-> "rename", p |-> Tmp(c), q |-> <<"roll", l>>]>>
Ack(l) == <<[do |-> "ack", l |-> l]>>

Prog(c, o) ==
  CASE o.op = "commit" -> IF Flaw = "ackearly" THEN SubSeq(LayerFiles(c, o.l, o.l), 1, Len(LayerFiles(c, o.l, o.l)) - 1) \o Ack(o.l) \o SubSeq(LayerFiles(c, o.l, o.l), Len(LayerFiles(c, o.l, o.l)), Len(LayerFiles(c, o.l, o.l)))
                          ELSE LayerFiles(c, o.l, o.l) \o Ack(o.l)
    [] o.op = "import" -> IF Flaw = "importskip" /\ Exists(o.l) THEN Ack(o.l)
                          ELSE LayerFiles(c, o.l, o.l) \o Ack(o.l)
    [] o.op = "rollup" -> IF Flaw = "registerfirst" THEN RollFile(c, o.l, o.r) \o LayerFiles(c, o.r, o.l)
                          ELSE LayerFiles(c, o.r, o.l) \o RollFile(c, o.l, o.r)
    [] o.op = "sethead" -> (IF Flaw = "truncate" THEN <<[do |-> "bump1", l |-> o.l], [do |-> "bump2", l |-> o.l]>>
                            ELSE <<[do |-> "bump", l |-> o.l]>>) \o <<[do |-> "done"]>>
    [] o.op = "create" -> IF Flaw = "createempty"
                          THEN <<[do |-> "linknew", q |-> <<"label">>, v |-> TornLabel], [do |-> "put", p |-> <<"label">>, v |-> [head |-> 0, version |-> 0]], [do |-> "done"]>>
                          ELSE <<[do |-> "put", p |-> Tmp(c), v |-> [head |-> 0, version |-> 0]],
                                 [do |-> "linknew", q |-> <<"label">>, v |-> [head |-> 0, version |-> 0]], [do |-> "done"], [do |-> "del", p |-> Tmp(c)]>>
    [] o.op = "delete" -> <<[do |-> "dellabel"], [do |-> "done"]>>

-----------------------------------------------------------------------------
Idle == [op |-> [op |-> "none"], prog |-> <<>>, pc |-> 1, new |-> NoDb, eff |-> FALSE]
Init ==
  /\ files = Empty /\ cl = [c \in Clients |-> Idle] /\ acked = {} /\ rolls = Empty
  /\ val = NoDb /\ maybe = {} /\ used = {} /\ left = MaxOps /\ crashes = 0

(* the layer written may be one whose import or commit was interrupted *)
CanWrite(l) == l \notin acked /\ (Par(l) = 0 \/ Par(l) \in acked) /\ \A c \in Clients : ~(cl[c].op.op \in {"commit", "import"} /\ cl[c].op.l = l)
Ops == { [op |-> "commit", l |-> l] : l \in { x \in Layers : CanWrite(x) /\ x \notin used } }
       \cup { [op |-> "import", l |-> l] : l \in { x \in Layers : CanWrite(x) } }
       \cup { [op |-> "rollup", l |-> l, r |-> r] : l \in acked, r \in { x \in Rolls : x \notin used /\ \A y \in Rolls : y < x => y \in used } }
       \cup { [op |-> "sethead", l |-> l] : l \in acked }
       \cup { [op |-> "create"], [op |-> "delete"] }
(* updates of the database one at a time here (that they are is the subject of Labels) *)
Updates == {"sethead", "create", "delete"}
Allowed(o) ==
  /\ o.op \in OpKinds
  /\ o.op \in Updates => \A c \in Clients : cl[c].op.op \notin Updates
  /\ o.op = "sethead" => Has(<<"label">>)
  /\ o.op = "create" => ~Has(<<"label">>)
  /\ o.op = "delete" => Has(<<"label">>)

Begin(c) ==
  /\ cl[c].prog = <<>> /\ left > 0
  /\ \E o \in Ops :
       /\ Allowed(o)
       /\ LET now == Listed
              new == CASE o.op = "sethead" -> [head |-> o.l, version |-> now.version + 1]
                       [] o.op = "create" -> [head |-> 0, version |-> 0]
                       [] OTHER -> NoDb
          IN /\ cl' = [cl EXCEPT ![c] = [op |-> o, prog |-> Prog(c, o), pc |-> 1, new |-> new, eff |-> FALSE]]
             /\ IF o.op \in Updates THEN val' = now /\ maybe' = {new} ELSE UNCHANGED <<val, maybe>>
       /\ used' = CASE o.op = "commit" -> used \cup {o.l} [] o.op = "rollup" -> used \cup {o.r} [] OTHER -> used
  /\ left' = left - 1
  /\ UNCHANGED <<files, acked, rolls, crashes>>

Step(c) ==
  /\ cl[c].prog # <<>>
  /\ LET s == cl[c].prog[cl[c].pc]
         last == cl[c].pc = Len(cl[c].prog)
     IN /\ files' = CASE s.do = "put" -> With(s.p, s.v)
                      [] s.do = "rename" -> [x \in (DOMAIN files \ {s.p}) \cup {s.q} |-> IF x = s.q THEN files[s.p] ELSE files[x]]
                      [] s.do = "linknew" -> With(s.q, s.v)
                      [] s.do = "del" -> Without(s.p)
                      [] s.do = "dellabel" -> Without(<<"label">>)
                      [] s.do = "bump1" -> With(<<"label">>, TornLabel)
                      [] s.do \in {"bump", "bump2"} -> With(<<"label">>, cl[c].new)
                      [] OTHER -> files
        /\ acked' = IF s.do = "ack" THEN acked \cup {s.l} ELSE acked
        /\ IF s.do = "done" THEN val' = cl[c].new /\ maybe' = {} ELSE UNCHANGED <<val, maybe>>
        /\ cl' = [cl EXCEPT ![c] = IF last THEN Idle ELSE [@ EXCEPT !.pc = @ + 1]]
  /\ UNCHANGED <<rolls, used, left, crashes>>

Crash ==
  /\ crashes < Crashes /\ \E c \in Clients : cl[c].prog # <<>>
  /\ crashes' = crashes + 1
  /\ cl' = [c \in Clients |-> Idle]
  /\ UNCHANGED <<files, acked, rolls, val, maybe, used, left>>

Next == (\E c \in Clients : Begin(c) \/ Step(c)) \/ Crash
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* every layer whose commit returned is intact, whatever else is or was going on *)
LayersIntact == \A l \in acked : Exists(l) /\ ReadOK(l)
(* the database is what the last completed update made it, or the one in progress *)
HeadRight == Listed \in {val} \cup maybe
HeadReadable == Listed.head > 0 => ReadOK(Listed.head)
(* a layer that can be found and read has its own content: nothing incomplete passes for a layer *)
NothingElse == \A l \in Layers : Exists(l) /\ ReadOK(l) => Complete(l, l) \/ Has(<<"roll", l>>)
(* an archive is there completely or not at all *)
ArchivesWhole == Kind = "arc" => \A l \in Layers \cup Rolls : Exists(l) => files[<<"arc", l>>] # Torn
=============================================================================
