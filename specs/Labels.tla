------------------------------- MODULE Labels -------------------------------
(***************************************************************************)
(* How head updates are implemented: label files with locks (Kind "dir"),  *)
(* or a map in memory ("mem"), and the operations of NamedGraph as several *)
(* label store calls.  Every history the implementation can produce must   *)
(* be explained by HeadSpec (Linearizable).                                *)
(*                                                                         *)
(* Flaw turns on a mistake, to show that the specification notices it.     *)
(***************************************************************************)
EXTENDS HeadSpec

CONSTANTS Kind, Clients, NLayers, MaxOps, OpKinds, Crashes, Flaw, StartDb

VARIABLES
  inode,   \* file id -> contents [head, version] or Torn
  link,    \* the file the name points to, 0 if none
  lock,    \* file id -> [w, r]: who holds the exclusive lock (0: nobody), who holds shared ones
  cl,      \* client -> [pc, op, fd, got, why, left]
  poss,    \* monitor
  crashes
vars == <<inode, link, lock, cl, poss, crashes>>

Layers == 1..NLayers
(* a little history: 1 <- 2 <- 4, 1 <- 3 ...: every layer's parent is its half *)
par == [l \in Layers |-> l \div 2]
Torn == [head |-> -1, version |-> -1]
NoGot == [head |-> 0, version |-> 0]
Free == [w |-> 0, r |-> {}]

Idle == [pc |-> "idle", op |-> [op |-> "none"], fd |-> 0, got |-> NoGot, left |-> MaxOps]

Init ==
  /\ IF StartDb THEN inode = <<NoGot>> /\ link = 1 /\ lock = <<Free>> ELSE inode = <<>> /\ link = 0 /\ lock = <<>>
  /\ cl = [c \in Clients |-> Idle]
  /\ poss = Start(IF StartDb THEN Fresh ELSE NoDb)
  /\ crashes = 0

Ops(c) == { [op |-> k, l |-> l, v |-> v, bh |-> cl[c].got.head, bv |-> cl[c].got.version] :
            k \in OpKinds, l \in Layers, v \in 0..1 }
(* only the arguments an operation has count *)
Norm(o) == [op |-> o.op,
            l |-> IF o.op \in {"sethead", "force", "forcev", "lset"} THEN o.l ELSE 0,
            v |-> IF o.op = "forcev" THEN o.v ELSE 0,
            bh |-> IF o.op \in {"lset", "lclear"} THEN o.bh ELSE 0,
            bv |-> IF o.op \in {"lset", "lclear"} THEN o.bv ELSE 0]
First(o) == CASE o.op = "create" -> "stat"
              [] o.op \in {"delete", "gdelete"} -> "unlink"
              [] o.op \in {"lset", "lclear"} -> "sopen"
              [] OTHER -> "gopen"

CurOps == [c \in Clients |-> cl[c].op]
Go(c, pc) == cl' = [cl EXCEPT ![c].pc = pc]
Ret(c, r, f) ==
  /\ poss' = Return(par, CurOps, poss, c, r)
  /\ cl' = [cl EXCEPT ![c] = [f EXCEPT !.pc = "idle", !.fd = 0, !.op = [op |-> "none"]]]
Keep == UNCHANGED <<poss, crashes>>
KeepF == UNCHANGED <<inode, link, lock>>

Begin(c) ==
  /\ cl[c].pc = "idle" /\ cl[c].left > 0
  /\ \E o0 \in Ops(c) : LET o == Norm(o0) IN
       /\ cl' = [cl EXCEPT ![c].pc = First(o), ![c].op = o, ![c].left = @ - 1]
  /\ poss' = Invoke(poss, c)
  /\ KeepF /\ UNCHANGED crashes

(* the value a read returned decides what comes next *)
AfterGet(c, found, val) ==
  LET o == cl[c].op
      f == [cl[c] EXCEPT !.got = IF found THEN val ELSE @]
      toSet == cl' = [cl EXCEPT ![c] = [f EXCEPT !.pc = "sopen"]] /\ UNCHANGED poss
      d == [ex |-> found, head |-> val.head, version |-> val.version]
  IN CASE o.op \in {"open", "listed"} -> Ret(c, R(IF found THEN "yes" ELSE "no"), f)
       [] o.op = "head" -> Ret(c, IF found THEN Val(d) ELSE R("err"), f)
       [] o.op = "headl" -> Ret(c, IF found THEN [Val(d) EXCEPT !.version = 0] ELSE R("err"), f)
       [] o.op = "lget" -> Ret(c, IF found THEN Val(d) ELSE R("no"), f)
       [] o.op = "sethead" -> IF ~found THEN Ret(c, R("err"), f)
                              ELSE IF Ff(par, d, o.l) \/ Flaw = "noff" THEN toSet ELSE Ret(c, R("no"), f)
       [] o.op = "force" -> IF ~found THEN Ret(c, R("err"), f) ELSE toSet
       [] o.op = "forcev" -> IF ~found THEN Ret(c, R("err"), f) ELSE IF d.version = o.v THEN toSet ELSE Ret(c, R("no"), f)
(* ... and so does the outcome of a compare-and-set *)
AfterSet(c, out) ==
  LET o == cl[c].op IN
  CASE out = "err" -> Ret(c, R("err"), cl[c])
    [] out = "yes" -> Ret(c, R(IF o.op = "force" THEN "ok" ELSE "yes"), cl[c])
    [] out = "no" -> IF o.op = "force" /\ Flaw # "noretry" THEN Go(c, "gopen") /\ UNCHANGED poss
                     ELSE Ret(c, R(IF o.op = "force" THEN "ok" ELSE "no"), cl[c])
Want(c) == LET o == cl[c].op IN
           [head |-> IF o.op = "lclear" THEN NoLayer ELSE o.l,
            version |-> (IF o.op \in {"lset", "lclear"} THEN o.bv ELSE cl[c].got.version) + 1]
Based(c) == LET o == cl[c].op IN IF o.op \in {"lset", "lclear"} THEN [head |-> o.bh, version |-> o.bv] ELSE cl[c].got
Match(c, val) == IF Flaw = "cmphead" THEN val.head = Based(c).head
                 ELSE IF Flaw = "cmpversion" THEN val.version = Based(c).version   \* fine as long as nobody deletes the database
                 ELSE val = Based(c)

(* the memory store: one step per call, under the lock of the map *)
MemStep(c) ==
  /\ Kind = "mem"
  /\ UNCHANGED <<lock, crashes>>
  /\ CASE cl[c].pc = "stat" ->
            /\ IF link = 0 THEN inode' = Append(inode, [head |-> 0, version |-> 0]) /\ link' = Len(inode) + 1 /\ Ret(c, R("ok"), cl[c])
               ELSE UNCHANGED <<inode, link>> /\ Ret(c, R("err"), cl[c])
       [] cl[c].pc = "unlink" ->
            /\ link' = 0 /\ UNCHANGED inode
            /\ Ret(c, R(IF cl[c].op.op = "gdelete" THEN "ok" ELSE IF link = 0 THEN "no" ELSE "yes"), cl[c])
       [] cl[c].pc = "gopen" -> UNCHANGED <<inode, link>> /\ AfterGet(c, link # 0, IF link = 0 THEN NoGot ELSE inode[link])
       [] cl[c].pc = "sopen" ->
            /\ UNCHANGED link
            /\ IF link = 0 THEN UNCHANGED inode /\ AfterSet(c, "err")
               ELSE IF Match(c, inode[link]) THEN inode' = [inode EXCEPT ![link] = Want(c)] /\ AfterSet(c, "yes")
               ELSE UNCHANGED inode /\ AfterSet(c, "no")
       [] OTHER -> FALSE

(* the directory store: open, lock, read, write, close *)
DirStep(c) ==
  /\ Kind = "dir"
  /\ UNCHANGED crashes
  /\ LET fd == cl[c].fd IN
     CASE cl[c].pc = "stat" ->
            IF link # 0 THEN KeepF /\ Ret(c, R("err"), cl[c]) ELSE KeepF /\ Go(c, "link") /\ UNCHANGED poss
       [] cl[c].pc = "link" ->    \* the file appears with its contents, unless there is one by now
            IF link # 0 /\ Flaw # "overwrite" THEN KeepF /\ Ret(c, R("err"), cl[c])
            ELSE /\ inode' = Append(inode, [head |-> 0, version |-> 0]) /\ link' = Len(inode) + 1 /\ lock' = Append(lock, Free)
                 /\ Ret(c, R("ok"), cl[c])
       [] cl[c].pc = "unlink" ->
            /\ link' = 0 /\ UNCHANGED <<inode, lock>>
            /\ Ret(c, R(IF cl[c].op.op = "gdelete" THEN "ok" ELSE IF link = 0 THEN "no" ELSE "yes"), cl[c])
       [] cl[c].pc = "gopen" ->
            KeepF /\ IF link = 0 THEN AfterGet(c, FALSE, NoGot)
                     ELSE cl' = [cl EXCEPT ![c].pc = "glock", ![c].fd = link] /\ UNCHANGED poss
       [] cl[c].pc = "glock" ->
            /\ lock[fd].w = 0 \/ Flaw = "noreadlock"
            /\ lock' = [lock EXCEPT ![fd].r = @ \cup {c}] /\ UNCHANGED <<inode, link>>
            /\ Go(c, "gread") /\ UNCHANGED poss
       [] cl[c].pc = "gread" ->   \* a torn file does not parse
            /\ lock' = [lock EXCEPT ![fd].r = @ \ {c}] /\ UNCHANGED <<inode, link>>
            /\ IF inode[fd] = Torn THEN Ret(c, R("unreadable"), cl[c]) ELSE AfterGet(c, TRUE, inode[fd])
       [] cl[c].pc = "sopen" ->
            KeepF /\ IF link = 0 THEN AfterSet(c, "err")
                     ELSE cl' = [cl EXCEPT ![c].pc = "slock", ![c].fd = link] /\ UNCHANGED poss
       [] cl[c].pc = "slock" ->
            /\ lock[fd].w = 0 \/ Flaw = "nolock"
            /\ lock[fd].r = {} \/ Flaw \in {"nolock", "noreadlock"}
            /\ lock' = [lock EXCEPT ![fd].w = c] /\ UNCHANGED <<inode, link>>
            /\ Go(c, "sread") /\ UNCHANGED poss
       [] cl[c].pc = "sread" ->
            /\ UNCHANGED <<inode, link>>
            /\ IF inode[fd] = Torn THEN lock' = [lock EXCEPT ![fd].w = 0] /\ Ret(c, R("unreadable"), cl[c])
               ELSE IF Match(c, inode[fd])
               THEN /\ lock' = IF Flaw = "unlockearly" THEN [lock EXCEPT ![fd].w = 0] ELSE lock
                    /\ Go(c, IF Flaw = "truncate" THEN "trunc" ELSE "write") /\ UNCHANGED poss
               ELSE lock' = [lock EXCEPT ![fd].w = 0] /\ AfterSet(c, "no")
       [] cl[c].pc = "trunc" ->
            /\ inode' = [inode EXCEPT ![fd] = Torn] /\ UNCHANGED <<link, lock>>
            /\ Go(c, "write") /\ UNCHANGED poss
       [] cl[c].pc = "write" ->   \* one write of the whole contents
            /\ inode' = [inode EXCEPT ![fd] = Want(c)] /\ UNCHANGED <<link, lock>>
            /\ Go(c, "done") /\ UNCHANGED poss
       [] cl[c].pc = "done" ->
            /\ lock' = [lock EXCEPT ![fd].w = 0] /\ UNCHANGED <<inode, link>>
            /\ AfterSet(c, "yes")
       [] OTHER -> FALSE

(* the process dies; the files stay *)
Crash ==
  /\ crashes < Crashes /\ crashes' = crashes + 1
  /\ poss' = Cut(par, CurOps, poss)
  /\ lock' = [f \in DOMAIN lock |-> Free] /\ UNCHANGED <<inode, link>>
  /\ cl' = [c \in Clients |-> [cl[c] EXCEPT !.pc = "idle", !.fd = 0, !.op = [op |-> "none"]]]

Next == (\E c \in Clients : Begin(c) \/ (cl[c].pc # "idle" /\ (MemStep(c) \/ DirStep(c)))) \/ (Kind = "dir" /\ Crash)
Spec == Init /\ [][Next]_vars

(* C10, C11, C12, and after a crash C14: every history has an explanation *)
Linearizable == poss # {}
(* somebody can always go on: no deadlock among the locks *)
Waits(c) == \/ cl[c].pc = "glock" /\ lock[cl[c].fd].w # 0
            \/ cl[c].pc = "slock" /\ lock[cl[c].fd] # Free
NoDeadlock == (\E c \in Clients : cl[c].pc # "idle") => \E c \in Clients : cl[c].pc # "idle" /\ ~Waits(c)
Symmetric == Permutations(Clients)
=============================================================================
