------------------------------ MODULE Sharing ------------------------------
(* Tasks sharing the layers of one store: loading through the layer cache    *)
(* (storage/cache.rs, get_layer_with_cache in storage/layer.rs) while others *)
(* write rollups, register them and drop layers.  The cache holds weak       *)
(* references: an entry may vanish at any moment.  Layers 1..N are a stack   *)
(* (1 at the bottom), committed; directories beyond N are rollups.  The      *)
(* content of a layer is represented by the set of layers whose changes make *)
(* it up.  Flaw names a deliberate mistake, to show that the invariants see  *)
(* it ("none" for the protocol as it should be).                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N, Tasks, Ops, MaxRolls, Flaw

Layers == 1..N
Dirs == 1..(N + MaxRolls)
Chain(k) == 1..k
None == [name |-> 0, cov |-> {}]

VARIABLES
  dpar, down, ddone, used,  \* directories: parent, changes, complete; how many there are
  ptr,                      \* layer -> its rollup, or 0
  cache,                    \* name -> loaded layer, or None
  t                         \* what every task is doing
vars == <<dpar, down, ddone, used, ptr, cache, t>>

Idle(n) == [pc |-> "idle", k |-> 0, upto |-> 0, dir |-> 0, todo |-> <<>>, anc |-> None, left |-> n]

Init ==
  /\ dpar = [d \in Dirs |-> IF d \in Layers THEN d - 1 ELSE 0]
  /\ down = [d \in Dirs |-> IF d \in Layers THEN {d} ELSE {}]
  /\ ddone = [d \in Dirs |-> d \in Layers]
  /\ used = N
  /\ ptr = [d \in Dirs |-> 0]
  /\ cache = [d \in Dirs |-> None]
  /\ t = [p \in Tasks |-> Idle(Ops)]

Disk == <<dpar, down, ddone, used, ptr>>
Goto(p, r) == t' = [t EXCEPT ![p] = r]

(* get_layer: k, to look at it (upto = k) or to roll it up to an ancestor (0: completely) *)
Start(p) ==
  /\ t[p].pc = "idle" /\ t[p].left > 0
  /\ \E k \in Layers : \E u \in {k} \cup (0..(k - 1)) :
       /\ u = k \/ u = 0 \/ u < k - 1
       /\ Goto(p, [t[p] EXCEPT !.pc = "walk", !.k = k, !.upto = u, !.todo = <<<<k, 0>>>>, !.anc = None, !.left = @ - 1])
  /\ UNCHANGED <<Disk, cache>>

Top(p) == t[p].todo[Len(t[p].todo)]
Popped(p) == SubSeq(t[p].todo, 1, Len(t[p].todo) - 1)
Cur(p) == IF Top(p)[2] # 0 THEN Top(p)[2] ELSE Top(p)[1]
(* a rollup shown under the name of the layer it stands for *)
As(orig, obj) == [obj EXCEPT !.name = orig]

(* down the stack until something cached, or the bottom *)
Walk(p) ==
  /\ t[p].pc = "walk"
  /\ LET c == Cur(p) IN
     IF cache[c] # None
     THEN IF Flaw = "twice"    \* looked up once to decide, once more to use
          THEN Goto(p, [t[p] EXCEPT !.pc = "use"])
          ELSE Goto(p, [t[p] EXCEPT !.pc = "build", !.anc = As(Top(p)[1], cache[c]), !.todo = Popped(p)])
     ELSE IF ptr[c] # 0 THEN Goto(p, [t[p] EXCEPT !.pc = "read"])
     ELSE IF dpar[c] # 0 THEN Goto(p, [t[p] EXCEPT !.todo = Append(@, <<dpar[c], 0>>)])
     ELSE Goto(p, [t[p] EXCEPT !.pc = "build"])
  /\ UNCHANGED <<Disk, cache>>
Use(p) ==
  /\ t[p].pc = "use"
  /\ Goto(p, IF cache[Cur(p)] = None THEN [t[p] EXCEPT !.pc = "failed"]
             ELSE [t[p] EXCEPT !.pc = "build", !.anc = As(Top(p)[1], cache[Cur(p)]), !.todo = Popped(p)])
  /\ UNCHANGED <<Disk, cache>>
(* there is a rollup: which one it is now; that one is loaded instead *)
Read(p) ==
  /\ t[p].pc = "read"
  /\ Goto(p, [t[p] EXCEPT !.pc = "walk", !.todo = Append(Popped(p), <<Cur(p), ptr[Cur(p)]>>)])
  /\ UNCHANGED <<Disk, cache>>

(* from the bottom up *)
Build(p) ==
  /\ t[p].pc = "build"
  /\ IF t[p].todo = <<>>
     THEN Goto(p, [t[p] EXCEPT !.pc = IF t[p].upto = t[p].k THEN "loaded" ELSE "roll"]) /\ UNCHANGED cache
     ELSE LET orig == Top(p)[1]
              d == IF Flaw = "reread" /\ ptr[orig] # 0 THEN ptr[orig]   \* asks again which rollup it is
                   ELSE Cur(p)
              obj == [name |-> orig, cov |-> down[d] \cup t[p].anc.cov]
          IN IF ~ddone[d] THEN Goto(p, [t[p] EXCEPT !.pc = "failed"]) /\ UNCHANGED cache
             ELSE /\ Goto(p, [t[p] EXCEPT !.anc = obj, !.todo = Popped(p)])
                  /\ cache' = [cache EXCEPT ![d] = [obj EXCEPT !.name = d],
                                            ![orig] = IF Flaw = "rawname" THEN [obj EXCEPT !.name = d] ELSE obj]
  /\ UNCHANGED Disk
Loaded(p) ==
  /\ t[p].pc = "loaded" /\ Goto(p, Idle(t[p].left)) /\ UNCHANGED <<Disk, cache>>

(* rolling up what was loaded *)
Roll(p) ==
  /\ t[p].pc = "roll"
  /\ LET k == t[p].k  u == t[p].upto IN
     IF k = 1 \/ (ptr[k] # 0 /\ dpar[ptr[k]] = u) \/ used = N + MaxRolls
     THEN Goto(p, Idle(t[p].left)) /\ UNCHANGED Disk
     ELSE /\ used' = used + 1
          /\ dpar' = [dpar EXCEPT ![used + 1] = u]
          /\ down' = [down EXCEPT ![used + 1] = IF Flaw = "stackonly" THEN {k} ELSE Chain(k) \ Chain(u)]
          /\ ptr' = IF Flaw = "early" THEN [ptr EXCEPT ![k] = used + 1] ELSE ptr
          /\ ddone' = ddone
          /\ Goto(p, [t[p] EXCEPT !.pc = "write", !.dir = used + 1])
  /\ UNCHANGED cache
Write(p) ==
  /\ t[p].pc = "write"
  /\ ddone' = [ddone EXCEPT ![t[p].dir] = TRUE]
  /\ Goto(p, [t[p] EXCEPT !.pc = "register"])
  /\ UNCHANGED <<dpar, down, used, ptr, cache>>
Register(p) ==
  /\ t[p].pc = "register"
  /\ ptr' = [ptr EXCEPT ![t[p].k] = t[p].dir]
  /\ Goto(p, [t[p] EXCEPT !.pc = "inval"])
  /\ UNCHANGED <<dpar, down, ddone, used, cache>>
Invalidate(p) ==
  /\ t[p].pc = "inval"
  /\ cache' = [cache EXCEPT ![t[p].k] = None]
  /\ Goto(p, Idle(t[p].left))
  /\ UNCHANGED Disk

(* the last holder of a cached layer drops it, or a stale entry's removal takes a fresh one with it *)
Vanish == \E d \in Dirs : cache[d] # None /\ cache' = [cache EXCEPT ![d] = None] /\ UNCHANGED <<Disk, t>>

Step(p) == Start(p) \/ Walk(p) \/ Use(p) \/ Read(p) \/ Build(p) \/ Loaded(p) \/ Roll(p) \/ Write(p) \/ Register(p) \/ Invalidate(p)
Next == Vanish \/ \E p \in Tasks : Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Tasks : WF_vars(Step(p))

-----------------------------------------------------------------------------
(* every load returns the layer asked for, with its one content *)
Right == \A p \in Tasks : t[p].pc \in {"loaded", "roll"} => t[p].anc = [name |-> t[p].k, cov |-> Chain(t[p].k)]
NoFailure == \A p \in Tasks : t[p].pc # "failed"
(* whatever is cached is what its name says *)
CacheRight == \A d \in Dirs : cache[d] # None => cache[d].name = d /\ (d \in Layers => cache[d].cov = Chain(d))
(* a registered rollup stands for its layer *)
RollupRight == \A k \in Layers : ptr[k] # 0 => ddone[ptr[k]] /\ down[ptr[k]] \cup Chain(dpar[ptr[k]]) = Chain(k) /\ dpar[ptr[k]] < k
(* nobody waits for anybody: everything asked for is eventually done *)
Finishes == <>(\A p \in Tasks : t[p].pc = "idle" /\ t[p].left = 0)
Symmetric == Permutations(Tasks)
=============================================================================
