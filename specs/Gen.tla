-------------------------------- MODULE Gen --------------------------------
(* Generates operation scripts: random walks (tlc -simulate) through          *)
(* TerminusStore with a history variable; every finished walk is printed as   *)
(* JSON.  Besides the actions themselves the walks contain reads, calls that  *)
(* must fail, cache drops and restarts.  Calls the properties say nothing     *)
(* about (layers with missing ancestors and so on) are not generated.         *)
EXTENDS TerminusStore, Json, IOUtils, Randomization, SequencesExt

CONSTANTS NNodes, NPreds, NVals,  \* size of the term universe
          Depth,                  \* steps of a walk
          MaxL,                   \* layers
          NStores,                \* stores
          NNames,                 \* database names
          Bulk,                   \* largest bulk request
          Weights                 \* sequence of step kinds, repeated by weight

VARIABLES hist, n, stale, handed, nb
(* stale: <<store, name>> -> label values read so far; handed: layers whose handle exists; nb: builders ever *)
gvars == <<hist, n, stale, handed, nb>>

Stores == 0..(NStores - 1)
Node(j) == "N" \o ToString(j)
Pred(j) == "P" \o ToString(j)
Val(j) == "V" \o ToString(j)
NodeS == { Node(j) : j \in 1..NNodes }
ObjS == NodeS \cup { Val(j) : j \in 1..NVals }
PredS == { Pred(j) : j \in 1..NPreds }
NameS == { "db" \o ToString(j) : j \in 1..NNames }
RndTriple(x) == <<RandomElement(NodeS), RandomElement(PredS), RandomElement(ObjS)>>

Init ==
  /\ layers = Empty /\ builders = Empty /\ packs = Empty /\ dict = Empty
  /\ dbs = [st \in Stores |-> Empty] /\ avail = [st \in Stores |-> {}]
  /\ hist = <<>> /\ n = 0 /\ stale = Empty /\ handed = {} /\ nb = 0

NextK == Cardinality(DOMAIN layers) + 1
Ls == DOMAIN layers
LsOf(st) == { l \in Ls : Loadable(st, l) }
Open == { b \in DOMAIN builders : ~builders[b].done }
Done == { b \in DOMAIN builders : builders[b].done }
Log(r) == hist' = Append(hist, r)
Logs(s) == hist' = hist \o s
Quiet == UNCHANGED vars
KeepG == UNCHANGED <<stale, handed, nb>>
Nop == Quiet /\ KeepG /\ hist' = hist
Room == Cardinality(Ls) < MaxL
Form(x) == IF RandomElement(1..2) = 1 THEN "id" ELSE "val"
(* prefers recent layers *)
Pick(S) == IF RandomElement(1..3) = 1 THEN RandomElement(S)
           ELSE CHOOSE l \in S : \A m \in S : m <= l

Do(kind, st) ==
  CASE kind = "base" ->
         IF Cardinality(Open) > 3 THEN Nop ELSE
         /\ Base(st, nb + 1) /\ nb' = nb + 1 /\ UNCHANGED <<stale, handed>>
         /\ Log([op |-> "base", b |-> nb + 1, st |-> st])
    [] kind = "child" ->
         IF LsOf(st) = {} \/ Cardinality(Open) > 3 THEN Nop ELSE
         \E l \in {Pick(LsOf(st))} :
           /\ Child(st, nb + 1, l) /\ nb' = nb + 1 /\ handed' = handed \cup {<<st, l>>} /\ UNCHANGED stale
           /\ Log([op |-> "child", l |-> l, b |-> nb + 1, st |-> st])
    [] kind \in {"add", "rem"} ->
         IF Open = {} THEN Nop ELSE
         \E b \in {RandomElement(Open)}, r \in {RandomElement(1..4)}, f \in {Form(0)}, t0 \in {RndTriple(0)} :
           LET B == builders[b]
               pool == IF r = 1 THEN Content(B.par) ELSE IF r = 2 THEN B.adds \cup B.rems
                       ELSE IF r = 3 /\ B.par # NoLayer THEN UNION { layers[l].adds : l \in Ancestry(B.par) } ELSE {}
           IN \E t \in {IF pool = {} THEN t0 ELSE RandomElement(pool)} :
                /\ IF kind = "add" THEN Add(b, t) ELSE Remove(b, t)
                /\ KeepG
                /\ Log([op |-> kind, b |-> b, t |-> t, form |-> f])
    [] kind = "bulk" ->
         IF Open = {} \/ Bulk = 0 THEN Nop ELSE
         \E b \in {RandomElement(Open)}, k \in {RandomElement(1..Bulk)} :
         \E ts \in { { RndTriple(j) : j \in 1..k } } :
           /\ Request(b, ts, {}) /\ KeepG
           /\ LET s == CHOOSE s \in {SetToSeq(ts)} : TRUE
              IN IF Bulk > 100 THEN Log([op |-> "many", b |-> b, adds |-> s, rems |-> <<>>])
                 ELSE Logs([j \in 1..Len(s) |-> [op |-> "add", b |-> b, t |-> s[j], form |-> "val"]])
    [] kind = "bulkrem" ->
         IF Open = {} \/ Bulk = 0 THEN Nop ELSE
         \E b \in {RandomElement(Open)} :
         \E c \in {Content(builders[b].par)} :
         \E k \in {RandomElement(0..Cardinality(c))} :
         \E ts \in { RandomSubset(k, c) } :
           /\ Request(b, {}, ts) /\ KeepG
           /\ LET s == CHOOSE s \in {SetToSeq(ts)} : TRUE
              IN Logs([j \in 1..Len(s) |-> [op |-> "rem", b |-> b, t |-> s[j], form |-> IF j % 2 = 0 THEN "id" ELSE "val"]])
    [] kind = "layer" ->    \* a whole layer at once: child (or base) builder, bulk of requests, commit
         IF ~Room THEN Nop ELSE
         \E par \in {IF LsOf(st) = {} \/ RandomElement(1..8) = 1 THEN NoLayer ELSE Pick(LsOf(st))}, k \in {RandomElement(0..Bulk)}, nl \in {RandomElement(1..6) = 1} :
         \E c \in {Content(par)} : \E kr \in {RandomElement(0..IF Cardinality(c) > Bulk + 3 THEN Bulk + 3 ELSE Cardinality(c))},
            readd \in {IF par = NoLayer \/ RandomElement(1..2) = 1 THEN {} ELSE RandomSubset(1, UNION { layers[l].adds \cup layers[l].rems : l \in Ancestry(par) } \cup {RndTriple(0)})} :
         \E as \in { { RndTriple(j) : j \in 1..k } \cup readd }, rs \in { RandomSubset(kr, c) \cup IF RandomElement(1..3) = 1 THEN { RndTriple(0) } ELSE {} } :
           LET sa == CHOOSE s \in {SetToSeq(as)} : TRUE
               sr == CHOOSE s \in {SetToSeq(rs)} : TRUE
               B == NewBuilder(st, par)
           IN /\ builders' = (nb + 1 :> [B EXCEPT !.adds = as, !.rems = rs, !.done = TRUE]) @@ builders
              /\ NewLayer(st, NextK, par, Apply(c, as, rs), IF par = NoLayer THEN "base" ELSE "child", {})
              /\ UNCHANGED <<dbs, packs, dict, stale>> /\ nb' = nb + 1
              /\ handed' = handed \cup {<<st, NextK>>}
              /\ Logs(<<IF par = NoLayer THEN [op |-> "base", b |-> nb + 1, st |-> st] ELSE [op |-> "child", l |-> par, b |-> nb + 1, st |-> st]>>
                      \o (IF Bulk > 100 THEN <<[op |-> "many", b |-> nb + 1, adds |-> sa, rems |-> sr]>> ELSE
                          [j \in 1..Len(sr) |-> [op |-> "rem", b |-> nb + 1, t |-> sr[j], form |-> IF (j + k) % 2 = 0 THEN "id" ELSE "val"]]
                          \o [j \in 1..Len(sa) |-> [op |-> "add", b |-> nb + 1, t |-> sa[j], form |-> IF (j + kr) % 2 = 0 THEN "id" ELSE "val"]])
                      \o <<[op |-> "commit", b |-> nb + 1, l |-> NextK, noload |-> nl]>>)
    [] kind \in {"delta", "diff"} ->
         IF Open = {} THEN Nop ELSE
         \E b \in {RandomElement(Open)} :
           IF LsOf(builders[b].st) = {} THEN Nop ELSE
           \E l \in {RandomElement(LsOf(builders[b].st))} :
             /\ IF kind = "delta" THEN ApplyDelta(b, l) ELSE ApplyDiff(b, l)
             /\ UNCHANGED <<stale, nb>> /\ handed' = handed \cup {<<builders[b].st, l>>}
             /\ Log([op |-> kind, b |-> b, l |-> l, st |-> builders[b].st])
    [] kind = "siblings" ->    \* two layers on top of the same layer; one made to look like the other, or to redo what it did
         IF Cardinality(Ls) + 3 > MaxL THEN Nop ELSE
         \E par \in {IF LsOf(st) = {} \/ RandomElement(1..4) = 1 THEN NoLayer ELSE RandomElement(LsOf(st))}, w \in {RandomElement({"delta", "diff"})} :
         \E c \in {Content(par)} :
         \E as1 \in { { RndTriple(j) : j \in 1..RandomElement(1..Bulk) } }, as2 \in { { RndTriple(j) : j \in 1..RandomElement(1..Bulk) } },
            rs1 \in { RandomSubset(RandomElement(0..(IF c = {} THEN 0 ELSE 1)), c) }, rs2 \in { RandomSubset(RandomElement(0..(IF c = {} THEN 0 ELSE 1)), c) } :
           LET k == NextK
               sa1 == CHOOSE s \in {SetToSeq(as1)} : TRUE
               sa2 == CHOOSE s \in {SetToSeq(as2)} : TRUE
               sr1 == CHOOSE s \in {SetToSeq(rs1)} : TRUE
               sr2 == CHOOSE s \in {SetToSeq(rs2)} : TRUE
               kd == IF par = NoLayer THEN "base" ELSE "child"
               c1 == Apply(c, as1, rs1)
               c2 == Apply(c, as2, rs2)
               ad == IF w = "diff" THEN c2 \ c1 ELSE c2 \ c
               rm == IF w = "diff" THEN c1 \ c2 ELSE c \ c2
               done(p) == [NewBuilder(st, p) EXCEPT !.done = TRUE]
               make(b, kk, sa, sr) ==
                 <<IF par = NoLayer THEN [op |-> "base", b |-> b, st |-> st] ELSE [op |-> "child", l |-> par, b |-> b, st |-> st]>>
                 \o [j \in 1..Len(sr) |-> [op |-> "rem", b |-> b, t |-> sr[j], form |-> "val"]]
                 \o [j \in 1..Len(sa) |-> [op |-> "add", b |-> b, t |-> sa[j], form |-> "val"]]
                 \o <<[op |-> "commit", b |-> b, l |-> kk, noload |-> FALSE]>>
           IN /\ builders' = (nb + 1 :> done(par)) @@ (nb + 2 :> done(par)) @@ (nb + 3 :> [done(k) EXCEPT !.adds = ad, !.rems = rm]) @@ builders
              /\ layers' = (k :> MkLayer(par, c1, kd, {})) @@ (k + 1 :> MkLayer(par, c2, kd, {})) @@ (k + 2 :>
                   [par |-> k, content |-> Apply(c1, ad, rm), adds |-> Apply(c1, ad, rm) \ c1, rems |-> c1 \ Apply(c1, ad, rm), prov |-> "child", src |-> {}]) @@ layers
              /\ avail' = [avail EXCEPT ![st] = @ \cup {k, k + 1, k + 2}]
              /\ UNCHANGED <<dbs, packs, dict, stale>> /\ nb' = nb + 3
              /\ handed' = handed \cup {<<st, k>>, <<st, k + 1>>, <<st, k + 2>>}
              /\ Logs(make(nb + 1, k, sa1, sr1) \o make(nb + 2, k + 1, sa2, sr2)
                      \o <<[op |-> "child", l |-> k, b |-> nb + 3, st |-> st], [op |-> w, b |-> nb + 3, l |-> k + 1, st |-> st],
                           [op |-> "commit", b |-> nb + 3, l |-> k + 2, noload |-> FALSE]>>)
    [] kind = "commit" ->
         IF Open = {} \/ ~Room THEN Nop ELSE
         \E b \in {RandomElement(Open)}, nl \in {RandomElement(1..5) = 1} :
           /\ Commit(b, NextK) /\ UNCHANGED <<stale, nb>>
           /\ handed' = handed \cup {<<builders[b].st, NextK>>}
           /\ Log([op |-> "commit", b |-> b, l |-> NextK, noload |-> nl])
    [] kind = "again" ->    \* any use of a committed builder
         IF Done = {} THEN Nop ELSE
         \E b \in {RandomElement(Done)}, w \in {RandomElement(1..3)}, t \in {RndTriple(0)} :
           /\ Quiet /\ KeepG
           /\ Log(CASE w = 1 -> [op |-> "add", b |-> b, t |-> t, form |-> "val"]
                    [] w = 2 -> [op |-> "rem", b |-> b, t |-> t, form |-> "val"]
                    [] OTHER -> [op |-> "commit", b |-> b, l |-> NextK])
    [] kind = "againbulk" ->
         IF Done = {} THEN Nop ELSE
         \E b \in {RandomElement(Done)}, w \in {RandomElement({"delta", "diff"})} :
         \E l \in {RandomElement(LsOf(builders[b].st))} :
           /\ Quiet /\ KeepG /\ Log([op |-> w, b |-> b, l |-> l, st |-> builders[b].st])
    [] kind = "bname" ->
         IF DOMAIN builders = {} THEN Nop ELSE
         \E b \in {RandomElement(DOMAIN builders)} : Quiet /\ KeepG /\ Log([op |-> "bname", b |-> b])
    [] kind = "dropb" ->
         IF Open = {} THEN Nop ELSE
         \E b \in {RandomElement(Open)} : DropBuilder(b) /\ KeepG /\ Log([op |-> "dropb", b |-> b])
    [] kind = "squash" ->
         IF LsOf(st) = {} \/ ~Room THEN Nop ELSE
         \E l \in {Pick(LsOf(st))} :
           /\ Squash(st, l, NextK) /\ UNCHANGED <<stale, nb>> /\ handed' = handed \cup {<<st, NextK>>, <<st, l>>}
           /\ Log([op |-> "squash", l |-> l, n |-> NextK, st |-> st])
    [] kind = "squash_upto" ->
         LET S == { l \in LsOf(st) : layers[l].par # NoLayer } IN
         IF S = {} \/ ~Room THEN Nop ELSE
         \E l \in {Pick(S)} : \E a \in {RandomElement(Ancestry(l) \ {l})} :
           /\ SquashUpto(st, l, a, NextK) /\ UNCHANGED <<stale, nb>> /\ handed' = handed \cup {<<st, NextK>>, <<st, l>>, <<st, a>>}
           /\ Log([op |-> "squash_upto", l |-> l, a |-> a, n |-> NextK, st |-> st])
    [] kind = "merge" ->
         LET S == { l \in LsOf(st) : layers[l].par = NoLayer } IN
         IF S = {} \/ ~Room THEN Nop ELSE
         \E k \in {RandomElement(1..4)} : \E ls \in { [j \in 1..k |-> RandomElement(S)] } :
           /\ Merge(st, Range(ls), NextK) /\ UNCHANGED <<stale, nb>> /\ handed' = handed \cup {<<st, NextK>>}
           /\ Log([op |-> "merge", ls |-> ls, n |-> NextK, st |-> st])
    [] kind = "rollup" ->
         IF LsOf(st) = {} THEN Nop ELSE
         \E l \in {Pick(LsOf(st))} : Rollup(st, l) /\ UNCHANGED <<stale, nb>> /\ handed' = handed \cup {<<st, l>>}
           /\ Log([op |-> "rollup", l |-> l, st |-> st])
    [] kind \in {"rollup_upto", "irollup_upto"} ->
         LET S == { l \in LsOf(st) : layers[l].par # NoLayer } IN
         IF S = {} THEN Nop ELSE
         \E l \in {Pick(S)} : \E a \in {RandomElement(Ancestry(l) \ {l})} :
           /\ RollupUpto(st, l, a) /\ UNCHANGED <<stale, nb>> /\ handed' = handed \cup {<<st, l>>, <<st, a>>}
           /\ Log([op |-> kind, l |-> l, a |-> a, st |-> st])
    [] kind \in {"obs", "obsold"} ->
         IF LsOf(st) = {} THEN Nop ELSE
         \E l \in {Pick(LsOf(st))} : Quiet /\ UNCHANGED <<stale, nb>> /\ handed' = handed \cup {<<st, l>>}
           /\ Log([op |-> "obs", l |-> l, st |-> st, old |-> kind = "obsold"])
    [] kind = "obsall" ->
         LET s == CHOOSE s \in {SetToSeq(LsOf(st))} : TRUE
         IN Quiet /\ UNCHANGED <<stale, nb>> /\ handed' = handed \cup { <<st, l>> : l \in LsOf(st) }
            /\ Logs([j \in 1..Len(s) |-> [op |-> "obs", l |-> s[j], st |-> st, old |-> FALSE]])
    [] kind = "get" ->
         LET S == { l \in Ls : Loadable(st, l) \/ ~Present(st, l) } IN
         IF S = {} THEN Nop ELSE
         \E l \in {RandomElement(S)} : Quiet /\ KeepG /\ Log([op |-> "get", l |-> l, st |-> st])
    [] kind = "getrandom" -> Quiet /\ KeepG /\ Log([op |-> "getrandom", st |-> st])
    [] kind = "drop" ->
         LET S == { h \in handed : h[1] = st } IN
         IF S = {} THEN Nop ELSE
         \E h \in {RandomElement(S)} : Quiet /\ handed' = handed \ {h} /\ UNCHANGED <<stale, nb>>
           /\ Log([op |-> "drop", l |-> h[2], st |-> st])
    [] kind = "dropall" -> Quiet /\ handed' = {} /\ UNCHANGED <<stale, nb>> /\ Log([op |-> "dropall"])
    [] kind = "reopen" -> Reopen /\ handed' = {} /\ stale' = Empty /\ nb' = nb /\ Log([op |-> "reopen"])
    [] kind = "layers" -> Quiet /\ KeepG /\ Log([op |-> "layers", st |-> st])
    [] kind = "ancestor" ->
         IF LsOf(st) = {} THEN Nop ELSE
         \E l \in {RandomElement(LsOf(st))}, a \in {RandomElement(LsOf(st))} :
           Quiet /\ KeepG /\ Log([op |-> "ancestor", l |-> l, a |-> a, st |-> st])
    [] kind = "lstore" ->
         IF LsOf(st) = {} THEN Nop ELSE
         \E l \in {Pick(LsOf(st))} : \E a \in {IF Ancestry(l) = {l} THEN 0 ELSE RandomElement(Ancestry(l) \ {l})} :
           Quiet /\ KeepG /\ Log([op |-> "lstore", l |-> l, a |-> a, st |-> st])
    [] kind \in {"create", "open", "delete"} ->
         \E x \in {RandomElement(NameS)} :
           /\ KeepG
           /\ CASE kind = "create" /\ ~HasDb(st, x) -> Create(st, x)
                [] kind = "delete" /\ HasDb(st, x) -> Delete(st, x)
                [] OTHER -> Quiet
           /\ Log([op |-> kind, name |-> x, st |-> st])
    [] kind = "gdelete" ->
         \E x \in {RandomElement(NameS)} :
           /\ KeepG
           /\ IF HasDb(st, x) THEN Delete(st, x) ELSE Quiet
           /\ Log([op |-> "gdelete", name |-> x, st |-> st])
    [] kind = "labels" -> Quiet /\ KeepG /\ Log([op |-> "labels", st |-> st])
    [] kind = "head" -> \E x \in {RandomElement(NameS)} : Quiet /\ KeepG /\ Log([op |-> "head", name |-> x, st |-> st])
    [] kind \in {"sethead", "force", "forcev"} ->
         IF LsOf(st) = {} THEN Nop ELSE
         \E x \in {RandomElement(NameS)}, l \in {RandomElement(LsOf(st))}, dv \in {RandomElement({0, 0, 0, 1, -1, 2})} :
           LET v == IF HasDb(st, x) /\ Db(st, x).version + dv >= 0 THEN Db(st, x).version + dv ELSE 0 IN
           /\ UNCHANGED <<stale, nb>> /\ handed' = handed \cup {<<st, l>>}
           /\ CASE kind = "sethead" /\ HasDb(st, x) /\ FastForward(st, x, l) -> SetHead(st, x, l)
                [] kind = "force" /\ HasDb(st, x) -> ForceHead(st, x, l)
                [] kind = "forcev" /\ HasDb(st, x) /\ Db(st, x).version = v -> ForceHeadVersion(st, x, l, v)
                [] OTHER -> Quiet
           /\ Log(IF kind = "forcev" THEN [op |-> kind, name |-> x, l |-> l, v |-> v, st |-> st]
                  ELSE [op |-> kind, name |-> x, l |-> l, st |-> st])
    [] kind = "lget" ->
         \E x \in {RandomElement(NameS)} :
           /\ Quiet /\ UNCHANGED <<handed, nb>>
           /\ stale' = IF HasDb(st, x)
                       THEN (<<st, x>> :> Append(IF <<st, x>> \in DOMAIN stale THEN stale[<<st, x>>] ELSE <<>>, Db(st, x))) @@ stale
                       ELSE stale
           /\ Log([op |-> "lget", name |-> x, st |-> st])
    [] kind \in {"lset", "lclear"} ->
         IF DOMAIN stale = {} \/ LsOf(st) = {} THEN Nop ELSE
         \E sx \in {RandomElement(DOMAIN stale)} :
         \E back \in {RandomElement(0..IF Len(stale[sx]) > 2 THEN 2 ELSE Len(stale[sx]) - 1)}, l \in {RandomElement(LsOf(st))} :
           LET base == stale[sx][Len(stale[sx]) - back]
               nl == IF kind = "lset" THEN l ELSE NoLayer
               ok == HasDb(sx[1], sx[2]) /\ Db(sx[1], sx[2]) = base
           IN IF sx[1] # st THEN Nop ELSE
              /\ UNCHANGED <<handed, nb>>
              /\ IF ok THEN CasHead(sx[1], sx[2], base.head, base.version, nl)
                          /\ stale' = [stale EXCEPT ![sx] = Append(@, [head |-> nl, version |-> base.version + 1])]
                 ELSE Quiet /\ stale' = stale
              /\ Log([op |-> kind, name |-> sx[2], l |-> l, back |-> back, st |-> st])
    [] kind = "aba" ->    \* the same version again, but of another database of the same name: a stale base must not match
         \E x \in {RandomElement(NameS)} :
           IF ~HasDb(st, x) \/ LsOf(st) = {} THEN Nop ELSE
           LET d == Db(st, x)
               S == LsOf(st) \ {d.head} IN
           IF d.head = NoLayer \/ d.version > 3 \/ S = {} THEN Nop ELSE
           \E l \in {RandomElement(S)}, l0 \in {RandomElement(LsOf(st))}, w \in {RandomElement({"lset", "lclear"})} :
             /\ PutDb(st, x, l, d.version) /\ UNCHANGED <<layers, builders, packs, avail, dict>>
             /\ stale' = (<<st, x>> :> Append(IF <<st, x>> \in DOMAIN stale THEN stale[<<st, x>>] ELSE <<>>, d)) @@ stale
             /\ handed' = handed \cup {<<st, l>>} /\ UNCHANGED nb
             /\ Logs(<<[op |-> "lget", name |-> x, st |-> st], [op |-> "delete", name |-> x, st |-> st], [op |-> "create", name |-> x, st |-> st]>>
                     \o [j \in 1..d.version |-> [op |-> "force", name |-> x, l |-> l, st |-> st]]
                     \o <<[op |-> w, name |-> x, l |-> l0, back |-> 0, st |-> st], [op |-> "head", name |-> x, st |-> st]>>)
    [] kind = "export" ->
         LET S == LsOf(st) IN
         IF S = {} \/ Cardinality(DOMAIN packs) > 3 THEN Nop ELSE
         \E l \in {Pick(S)}, w \in {RandomElement(1..3)}, k \in {RandomElement(1..Cardinality(S))} :
         \E ls \in {CASE w = 1 -> Ancestry(l)
                      [] w = 2 -> Ancestry(l) \cup RandomSubset(k, S)
                      [] OTHER -> RandomSubset(k, S)} :
           LET x == Cardinality(DOMAIN packs) + 1
               s == CHOOSE s \in {SetToSeq(ls)} : TRUE
           IN /\ Export(st, x, ls) /\ KeepG
              /\ Log([op |-> "export", x |-> x, ls |-> s, st |-> st])
    [] kind = "import" ->
         IF DOMAIN packs = {} THEN Nop ELSE
         \E x \in {RandomElement(DOMAIN packs)}, w \in {RandomElement(1..6)} :
         \E ls \in {CASE w <= 2 -> packs[x]
                      [] w <= 4 -> RandomSubset(RandomElement(0..Cardinality(packs[x])), packs[x])
                      [] OTHER -> RandomSubset(RandomElement(0..Cardinality(Ls)), Ls)} :
           LET want == IF w \in {1, 3} THEN { l \in ls : ~Present(st, l) } ELSE ls     \* also what it already has, or what is not in the pack
               s == CHOOSE s \in {SetToSeq(want)} : TRUE
           IN /\ Import(st, x, want) /\ KeepG
              /\ Log([op |-> "import", x |-> x, ls |-> s, st |-> st])
    [] OTHER -> Assert(FALSE, <<"unknown kind", kind>>)

(* at the end: everything is read again, through old handles, fresh loads and after a restart *)
EndReads ==
  LET all(st, old) == LET s == CHOOSE s \in {SetToSeq(LsOf(st))} : TRUE
                      IN [j \in 1..Len(s) |-> [op |-> "obs", l |-> s[j], st |-> st, old |-> old]]
      anc(st) == <<[op |-> "ancestors", ls |-> CHOOSE s \in {SetToSeq(LsOf(st))} : TRUE, st |-> st]>>
      lab(st) == <<[op |-> "labels", st |-> st], [op |-> "layers", st |-> st]>>
      stsq == [j \in 1..NStores |-> j - 1]
      RECURSIVE cat(_, _)
      cat(f, j) == IF j > NStores THEN <<>> ELSE f[j] \o cat(f, j + 1)
      old == cat([j \in 1..NStores |-> all(j - 1, TRUE)], 1)
      new == cat([j \in 1..NStores |-> all(j - 1, FALSE)], 1)
      labs == cat([j \in 1..NStores |-> lab(j - 1)], 1)
      ancs == cat([j \in 1..NStores |-> anc(j - 1)], 1)
  IN old \o <<[op |-> "dropall"]>> \o new \o labs \o ancs \o <<[op |-> "reopen"]>> \o new \o labs

Finish ==
  /\ PrintT("SCRIPT " \o ToJson([ops |-> hist \o EndReads]))
  /\ UNCHANGED <<vars, hist, stale, handed, nb>>

Next ==
  /\ n < Depth
  /\ n' = n + 1
  /\ IF n = Depth - 1 THEN Finish
     ELSE \E k \in {RandomElement(DOMAIN Weights)}, st \in {RandomElement(Stores)} : Do(Weights[k], st)

Spec == Init /\ [][Next]_<<vars, gvars>>
=============================================================================
