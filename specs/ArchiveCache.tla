---------------------------- MODULE ArchiveCache ----------------------------
(***************************************************************************)
(* The archive cache (LruArchiveBackend): clients reading and storing      *)
(* archives through a shared cache bounded in size, where reads of one     *)
(* layer share a lookup at the origin.  Every step is what one client does *)
(* between two points where others can run: calls to the origin, waiting   *)
(* for another's lookup, and being cancelled there.                        *)
(***************************************************************************)
EXTENDS CacheSpec
CONSTANTS Clients, Ids, MaxOps, Fails, Cancels, Flaw,
          Sizes,       \* size of each layer
          Limit, InitStored
VARIABLES lru,    \* cache entries, least recently used first: [id, b], b the lookup it waits for or 0
          bar,    \* lookups: "held", "ok", "err", "gone"
          cl, a, fails, cancels, wrong
vars == <<lru, bar, cl, a, fails, cancels, wrong>>
Size(id) == Sizes[id]

Bars == 1..(2 * Cardinality(Clients) + Cardinality(Ids))
Free == CHOOSE b \in Bars : (\A k \in 1..Len(lru) : lru[k].b # b) /\ (\A c \in Clients : cl[c].b # b)
Idle(left) == [pc |-> "idle", op |-> "", id |-> 0, b |-> 0, res |-> "", left |-> left]
Init == /\ lru = <<>> /\ bar = [b \in Bars |-> "free"] /\ cl = [c \in Clients |-> Idle(MaxOps)] /\ a = Start(InitStored)
        /\ fails = Fails /\ cancels = Cancels /\ wrong = ""

Entry(id) == { k \in 1..Len(lru) : lru[k].id = id }
Has(id) == Entry(id) # {}
At(id) == lru[CHOOSE k \in Entry(id) : TRUE]
Resident(id) == Has(id) /\ At(id).b = 0
Rm(s, id) == SelectSeq(s, LAMBDA x : x.id # id)
(* the memory the cache keeps: what is resolved, and results nobody is going to fetch any more *)
Owned(b) == \E c \in Clients : cl[c].b = b /\ cl[c].pc \in {"origin", "back"}
Held == Total([k \in 1..Len(lru) |-> IF lru[k].b = 0 \/ (bar[lru[k].b] = "ok" /\ ~Owned(lru[k].b)) THEN Size(lru[k].id) ELSE 0], 1..Len(lru))
Cached(s) == Total([k \in 1..Len(s) |-> IF s[k].b = 0 THEN Size(s[k].id) ELSE 0], 1..Len(s))

(* least recently used first until the rest leaves room *)
RECURSIVE MakeRoom(_, _)
MakeRoom(s, need) ==
  IF Flaw = "noroom" \/ need <= 0 \/ (\A k \in 1..Len(s) : s[k].b # 0) THEN s
  ELSE LET k == CHOOSE k \in 1..Len(s) : s[k].b = 0 /\ \A j \in 1..(k - 1) : s[j].b # 0 IN
       MakeRoom(SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k - 1), need - Size(s[k].id))
Room(s, id) == MakeRoom(s, Size(id) - (Limit - Cached(s)))
Fits(id) == Flaw = "toolarge" \/ Size(id) <= Limit

Ret(c, r) ==
  /\ wrong' = (IF r = "ok" /\ ~MayAnswer(a, c) THEN "answered for a layer that is not there"
               ELSE IF r = "err" /\ ~MayFail(a, c, "err") /\ ~MayMiss(a, c) THEN "reported a failure that was not its own"
               ELSE IF r = "panic" THEN "panicked" ELSE wrong)
  /\ a' = End(a, c)
  /\ cl' = [cl EXCEPT ![c] = Idle(@.left)]
Go(c, pc) == cl' = [cl EXCEPT ![c].pc = pc]

BeginOp(c, op, id) ==
  /\ cl[c].pc = "idle" /\ cl[c].left > 0
  /\ cl' = [cl EXCEPT ![c] = [Idle(@.left - 1) EXCEPT !.op = op, !.id = id, !.pc = CASE op = "get" -> "look" [] op = "piece" -> "size" [] op = "store" -> "sorigin"]]
  /\ a' = Begin(a, c, id) /\ UNCHANGED <<lru, bar, fails, cancels, wrong>>
(* a piece: the whole layer is fetched if it fits *)
SizeStep(c) ==
  /\ cl[c].pc = "size" /\ UNCHANGED <<lru, bar, fails, cancels>>
  /\ IF Resident(cl[c].id) \/ cl[c].id \in a.stored
     THEN Go(c, IF Limit # 0 /\ Size(cl[c].id) <= Limit THEN "look" ELSE "direct") /\ UNCHANGED <<a, wrong>>
     ELSE Ret(c, "err")
Look(c) ==
  /\ cl[c].pc = "look" /\ UNCHANGED <<fails, cancels>>
  /\ IF Resident(cl[c].id) THEN lru' = Append(Rm(lru, cl[c].id), At(cl[c].id)) /\ Ret(c, "ok") /\ UNCHANGED bar
     ELSE IF Has(cl[c].id) THEN /\ cl' = [cl EXCEPT ![c].pc = "wait", ![c].b = At(cl[c].id).b]
                                /\ lru' = Append(Rm(lru, cl[c].id), At(cl[c].id)) /\ UNCHANGED <<bar, a, wrong>>
     ELSE /\ bar' = [bar EXCEPT ![Free] = "held"] /\ lru' = Append(lru, [id |-> cl[c].id, b |-> Free])
          /\ cl' = [cl EXCEPT ![c].pc = "origin", ![c].b = Free] /\ UNCHANGED <<a, wrong>>
(* the origin answers *)
Origin(c, fail) ==
  /\ cl[c].pc \in {"origin", "direct"}
  /\ fail => fails > 0
  /\ fails' = fails - (IF fail THEN 1 ELSE 0)
  /\ LET bad == fail \/ cl[c].id \notin a.stored IN
     IF cl[c].pc = "direct" /\ bad THEN /\ wrong' = wrong /\ a' = End(Fail(a, c, cl[c].id, "err"), c) /\ cl' = [cl EXCEPT ![c] = Idle(@.left)] /\ UNCHANGED bar
     ELSE IF cl[c].pc = "direct" THEN Ret(c, "ok") /\ UNCHANGED bar
     ELSE /\ cl' = [cl EXCEPT ![c].pc = "back", ![c].res = IF bad THEN "err" ELSE "ok"]
          /\ a' = (IF bad THEN Fail(a, c, cl[c].id, "err") ELSE a)
          /\ bar' = (IF Flaw = "early" THEN [bar EXCEPT ![cl[c].b] = IF bad THEN "err" ELSE "ok"] ELSE bar) /\ UNCHANGED wrong
  /\ UNCHANGED <<lru, cancels>>
(* and its answer reaches the cache *)
Back(c) ==
  /\ cl[c].pc = "back" /\ UNCHANGED <<fails, cancels>>
  /\ bar' = [bar EXCEPT ![cl[c].b] = cl[c].res]
  /\ LET id == cl[c].id IN
     IF cl[c].res = "err" THEN /\ Ret(c, IF Has(id) THEN "err" ELSE "panic")
                               /\ lru' = (IF Flaw = "failstays" THEN lru ELSE Rm(lru, id))
     ELSE IF ~Fits(id) THEN Ret(c, IF Has(id) THEN "ok" ELSE "panic") /\ lru' = Rm(lru, id)
     ELSE LET s == Room(lru, id) IN
          /\ Ret(c, IF { k \in 1..Len(s) : s[k].id = id } # {} THEN "ok" ELSE "panic")
          /\ lru' = Append(Rm(s, id), [id |-> id, b |-> 0])
Wait(c) ==
  /\ cl[c].pc = "wait" /\ bar[cl[c].b] # "held" /\ UNCHANGED <<bar, fails, cancels>>
  /\ Flaw = "early" => ~Owned(cl[c].b)
  /\ CASE bar[cl[c].b] = "ok" -> Ret(c, "ok") /\ UNCHANGED lru
       [] bar[cl[c].b] = "err" -> Ret(c, "err") /\ UNCHANGED lru
       [] bar[cl[c].b] = "gone" ->
            IF Flaw = "noabandon" THEN Ret(c, "panic") /\ UNCHANGED lru
            ELSE /\ Go(c, "look") /\ UNCHANGED <<a, wrong>>
                 /\ lru' = (IF Has(cl[c].id) /\ (At(cl[c].id).b = cl[c].b \/ (Flaw = "rmany" /\ At(cl[c].id).b # 0)) THEN Rm(lru, cl[c].id) ELSE lru)
StoreOrigin(c, fail) ==
  /\ cl[c].pc = "sorigin" /\ UNCHANGED <<bar, cancels>>
  /\ fail => fails > 0
  /\ fails' = fails - (IF fail THEN 1 ELSE 0)
  /\ lru' = (IF Flaw = "storefirst" /\ ~Has(cl[c].id) /\ Fits(cl[c].id) THEN Append(Room(lru, cl[c].id), [id |-> cl[c].id, b |-> 0]) ELSE lru)
  /\ IF fail THEN a' = End(a, c) /\ cl' = [cl EXCEPT ![c] = Idle(@.left)] /\ UNCHANGED wrong
     ELSE a' = Stored(a, cl[c].id) /\ Go(c, "sback") /\ UNCHANGED wrong
StoreBack(c) ==
  /\ cl[c].pc = "sback" /\ UNCHANGED <<bar, fails, cancels>>
  /\ lru' = (IF (Flaw # "storeover" /\ Has(cl[c].id)) \/ ~Fits(cl[c].id) THEN lru
             ELSE Append(Rm(Room(lru, cl[c].id), cl[c].id), [id |-> cl[c].id, b |-> 0]))
  /\ Ret(c, "ok")
Cancel(c) ==
  /\ cancels > 0 /\ cl[c].pc \notin {"idle"} /\ cancels' = cancels - 1
  /\ bar' = (IF cl[c].pc \in {"origin", "back"} /\ bar[cl[c].b] = "held" THEN [bar EXCEPT ![cl[c].b] = "gone"] ELSE bar)
  /\ a' = End(a, c) /\ cl' = [cl EXCEPT ![c] = Idle(@.left)] /\ UNCHANGED <<lru, fails, wrong>>

Step(c) == SizeStep(c) \/ Look(c) \/ Origin(c, FALSE) \/ Back(c) \/ Wait(c) \/ StoreOrigin(c, FALSE) \/ StoreBack(c)
Done == \A c \in Clients : cl[c].pc = "idle" /\ cl[c].left = 0
Next ==
  \/ \E c \in Clients : Step(c) \/ Origin(c, TRUE) \/ StoreOrigin(c, TRUE) \/ Cancel(c)
  \/ \E c \in Clients, id \in Ids : BeginOp(c, "get", id) \/ BeginOp(c, "piece", id) \/ BeginOp(c, "store", id)
  \/ Done /\ UNCHANGED vars       \* so that TLC's deadlock check finds operations that never return
Spec == Init /\ [][Next]_vars

Explained == wrong = ""
Bounded == Held <= Limit
NotTooLarge == \A k \in 1..Len(lru) : lru[k].b = 0 => Size(lru[k].id) <= Limit
OnceEach == \A j, k \in 1..Len(lru) : lru[j].id = lru[k].id => j = k
(* a lookup that was given up leaves nothing for good: the next read of the layer gets through (Wait has a step for it) *)
View == <<lru, [k \in Bars |-> IF (\E j \in 1..Len(lru) : lru[j].b = k) \/ (\E c \in Clients : cl[c].b = k) THEN bar[k] ELSE "free"], cl, a, fails, cancels, wrong>>
SZ == <<1, 2, 3, 4>>
Symmetric == Permutations(Clients)
=============================================================================
