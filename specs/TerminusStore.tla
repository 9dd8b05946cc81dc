---------------------------- MODULE TerminusStore ----------------------------
(***************************************************************************)
(* The abstract terminus-store: immutable layers of triples built by       *)
(* builders, ids for terms, named databases pointing at layers, several    *)
(* stores exchanging layers by packs, and maintenance operations (rollup,  *)
(* squash, merge, reopen).  One action per public call, at its             *)
(* linearization point.  The multi-step behaviour inside a call is in      *)
(* Labels.tla (head updates), Stack.tla (how layers, ids and rollups are   *)
(* represented), Sharing.tla (loading through the layer cache),            *)
(* ArchiveCache.tla and Crash.tla.                                         *)
(*                                                                         *)
(* StoreTrace.tla reuses the operators and effects below to judge traces   *)
(* recorded from the real library; Gen*.tla reuse them to generate the     *)
(* operation scripts those traces come from; MCTerminusStore checks the    *)
(* properties on the specification itself.                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
  layers,    \* layer key -> [par, content, adds, rems, prov, src]
  builders,  \* builder id -> [st, par, adds, rems, done]
  dbs,       \* store -> (database name -> [head, version])
  packs,     \* pack id -> set of layer keys
  avail,     \* store -> set of layer keys present in it
  dict       \* layer key -> [so, nd, ps]: ids of terms, for layers whose ids have been observed

vars == <<layers, builders, dbs, packs, avail, dict>>

NoLayer == 0
Empty == [x \in {} |-> 0]   \* the empty function

Range(f) == { f[x] : x \in DOMAIN f }
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Injective(s) == Cardinality(Range(s)) = Len(s)
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

-----------------------------------------------------------------------------
(* layers and history *)

Known(k) == k \in DOMAIN layers
Content(k) == IF k = NoLayer THEN {} ELSE layers[k].content
Parent(k) == IF k = NoLayer THEN NoLayer ELSE layers[k].par

RECURSIVE Chain(_)
Chain(k) == IF k = NoLayer THEN <<>> ELSE Append(Chain(layers[k].par), k)
Ancestry(k) == Range(Chain(k))              \* including k itself
IsAncestor(a, k) == a \in Ancestry(k)       \* reflexive
StrictAncestor(a, k) == a # k /\ a \in Ancestry(k)
Present(st, k) == k \in avail[st]
Loadable(st, k) == Ancestry(k) \subseteq avail[st]

(* the set meaning of a set of requested changes on a parent's content *)
Apply(base, add, rem) == (base \ (rem \ add)) \cup (add \ rem)

(* the left fold of all per-layer changes along the history *)
RECURSIVE Fold(_)
Fold(k) == IF k = NoLayer THEN {}
           ELSE (Fold(layers[k].par) \ layers[k].rems) \cup layers[k].adds

MkLayer(par, content, prov, src) ==
  [ par |-> par, content |-> content,
    adds |-> content \ Content(par), rems |-> Content(par) \ content,
    prov |-> prov, src |-> src ]

(* a new layer k in store st *)
NewLayer(st, k, par, content, prov, src) ==
  /\ layers' = (k :> MkLayer(par, content, prov, src)) @@ layers
  /\ avail' = [avail EXCEPT ![st] = @ \cup {k}]

-----------------------------------------------------------------------------
(* ids *)

Nodes(content) == { t[1] : t \in content }    \* subjects; objects may be nodes or values
Objs(content) == { t[3] : t \in content }
Preds(content) == { t[2] : t \in content }

(* d is a possible id assignment for a layer with this content: one-to-one (a term of one kind has one id)
   and every term in use has an id *)
DictWellFormed(content, d) ==
  /\ Injective(d.so) /\ Injective(d.ps)
  /\ Len(d.so) = Len(d.nd)
  /\ Nodes(content) \cup Objs(content) \subseteq Range(d.so)
  /\ Preds(content) \subseteq Range(d.ps)
(* the terms a layer knows: those of the triples added along its history, whether still there or not; nothing that was
   merely mentioned in a removal or in an addition that came to nothing *)
TermsOf(ts) == [so |-> Nodes(ts) \cup Objs(ts), ps |-> Preds(ts)]
RECURSIVE Vocabulary(_)
Vocabulary(k) ==
  LET own == TermsOf(UNION { layers[l].adds : l \in Ancestry(k) })
      from == UNION { layers[l].src : l \in { x \in Ancestry(k) : layers[x].prov = "merge" } }
      more == { Vocabulary(l) : l \in from }
  IN [so |-> own.so \cup UNION { v.so : v \in more }, ps |-> own.ps \cup UNION { v.ps : v \in more }]
(* ids of an ancestor mean the same in its descendants *)
DictExtends(a, d) == IsPrefix(a.so, d.so) /\ IsPrefix(a.nd, d.nd) /\ IsPrefix(a.ps, d.ps)
DictStable(k, d) ==
  /\ \A a \in DOMAIN dict : IsAncestor(a, k) => DictExtends(dict[a], d)
  /\ \A c \in DOMAIN dict : IsAncestor(k, c) => DictExtends(d, dict[c])
DictOK(k, d) == DictWellFormed(Content(k), d) /\ DictStable(k, d)

(* looking at a layer reveals its ids, which are then fixed *)
LearnEff(k, d) == dict' = (k :> d) @@ dict
Learn(k, d) == /\ Known(k) /\ k \notin DOMAIN dict /\ DictOK(k, d)
               /\ LearnEff(k, d)
               /\ UNCHANGED <<layers, builders, dbs, packs, avail>>

-----------------------------------------------------------------------------
(* builders *)

NewBuilder(st, par) == [st |-> st, par |-> par, adds |-> {}, rems |-> {}, done |-> FALSE]
OpenB(b) == b \in DOMAIN builders /\ ~builders[b].done

Base(st, b) ==
  /\ b \notin DOMAIN builders
  /\ builders' = (b :> NewBuilder(st, NoLayer)) @@ builders
  /\ UNCHANGED <<layers, dbs, packs, avail, dict>>

Child(st, b, l) ==
  /\ b \notin DOMAIN builders /\ Known(l) /\ Loadable(st, l)
  /\ builders' = (b :> NewBuilder(st, l)) @@ builders
  /\ UNCHANGED <<layers, dbs, packs, avail, dict>>

Request(b, add, rem) ==
  /\ OpenB(b)
  /\ builders' = [builders EXCEPT ![b].adds = @ \cup add, ![b].rems = @ \cup rem]
  /\ UNCHANGED <<layers, dbs, packs, avail, dict>>

Add(b, t) == Request(b, {t}, {})
Remove(b, t) == Request(b, {}, {t})
ApplyDelta(b, l) == Known(l) /\ Request(b, layers[l].adds, layers[l].rems)
ApplyDiff(b, l) == /\ OpenB(b) /\ Known(l)
                   /\ LET p == Content(builders[b].par)
                      IN Request(b, Content(l) \ p, p \ Content(l))

Commit(b, k) ==
  /\ OpenB(b) /\ ~Known(k)
  /\ LET B == builders[b]
         c == Apply(Content(B.par), B.adds, B.rems)
     IN NewLayer(B.st, k, B.par, c, IF B.par = NoLayer THEN "base" ELSE "child", {})
  /\ builders' = [builders EXCEPT ![b].done = TRUE]
  /\ UNCHANGED <<dbs, packs, dict>>

(* every other use of a committed builder is an error that changes nothing: no action *)

DropBuilder(b) ==
  /\ b \in DOMAIN builders
  /\ builders' = Drop(builders, b)
  /\ UNCHANGED <<layers, dbs, packs, avail, dict>>

-----------------------------------------------------------------------------
(* maintenance *)

Squash(st, l, k) ==
  /\ Known(l) /\ Loadable(st, l) /\ ~Known(k)
  /\ NewLayer(st, k, NoLayer, Content(l), "squash", {l})
  /\ UNCHANGED <<builders, dbs, packs, dict>>

SquashUpto(st, l, a, k) ==
  /\ Known(l) /\ Known(a) /\ Loadable(st, l) /\ StrictAncestor(a, l) /\ ~Known(k)
  /\ NewLayer(st, k, a, Content(l), "squash_upto", {l})
  /\ UNCHANGED <<builders, dbs, packs, dict>>

Merge(st, ls, k) ==   \* ls: set of base layers
  /\ ls # {}
  /\ \A l \in ls : Known(l) /\ Loadable(st, l) /\ layers[l].par = NoLayer
  /\ ~Known(k)
  /\ NewLayer(st, k, NoLayer, UNION { Content(l) : l \in ls }, "merge", ls)
  /\ UNCHANGED <<builders, dbs, packs, dict>>

(* rollups, caching, dropping handles: nothing observable happens *)
Rollup(st, l) == Known(l) /\ Loadable(st, l) /\ UNCHANGED vars
RollupUpto(st, l, a) == Known(l) /\ Loadable(st, l) /\ StrictAncestor(a, l) /\ UNCHANGED vars

(* process restart: layers and databases persist, builders are lost *)
Reopen ==
  /\ builders' = Empty
  /\ UNCHANGED <<layers, dbs, packs, avail, dict>>

-----------------------------------------------------------------------------
(* databases *)

Db(st, n) == dbs[st][n]
HasDb(st, n) == n \in DOMAIN dbs[st]
PutDb(st, n, h, v) == dbs' = [dbs EXCEPT ![st] = (n :> [head |-> h, version |-> v]) @@ @]

Create(st, n) ==
  /\ ~HasDb(st, n)
  /\ PutDb(st, n, NoLayer, 0)
  /\ UNCHANGED <<layers, builders, packs, avail, dict>>

Delete(st, n) ==
  /\ HasDb(st, n)
  /\ dbs' = [dbs EXCEPT ![st] = Drop(@, n)]
  /\ UNCHANGED <<layers, builders, packs, avail, dict>>

FastForward(st, n, l) == Db(st, n).head = NoLayer \/ IsAncestor(Db(st, n).head, l)

Point(st, n, l) ==
  /\ PutDb(st, n, l, Db(st, n).version + 1)
  /\ UNCHANGED <<layers, builders, packs, avail, dict>>

SetHead(st, n, l) == HasDb(st, n) /\ Present(st, l) /\ FastForward(st, n, l) /\ Point(st, n, l)
ForceHead(st, n, l) == HasDb(st, n) /\ Present(st, l) /\ Point(st, n, l)
ForceHeadVersion(st, n, l, v) == HasDb(st, n) /\ Present(st, l) /\ Db(st, n).version = v /\ Point(st, n, l)
(* the label store's own compare-and-set: replaces exactly the pair it was based on *)
CasHead(st, n, bh, bv, l) == HasDb(st, n) /\ Db(st, n) = [head |-> bh, version |-> bv] /\ Point(st, n, l)

-----------------------------------------------------------------------------
(* packs *)

Export(st, x, ls) ==
  /\ x \notin DOMAIN packs
  /\ \A l \in ls : Known(l) /\ Present(st, l)
  /\ packs' = (x :> ls) @@ packs
  /\ UNCHANGED <<layers, builders, dbs, avail, dict>>

PackParents(ls) == { <<l, layers[l].par>> : l \in ls }

Import(st, x, ls) ==
  /\ x \in DOMAIN packs
  /\ avail' = [avail EXCEPT ![st] = @ \cup (ls \cap packs[x])]
  /\ UNCHANGED <<layers, builders, dbs, packs, dict>>

-----------------------------------------------------------------------------
(* properties of the specification *)

HistoryWellFounded == \A k \in DOMAIN layers : layers[k].par = NoLayer \/ (Known(layers[k].par) /\ layers[k].par < k)

(* C01, C05: content is the fold of the per-layer changes, which are minimal *)
ContentIsFold == \A k \in DOMAIN layers :
  /\ Content(k) = Fold(k)
  /\ layers[k].adds \cap Content(layers[k].par) = {}
  /\ layers[k].rems \subseteq Content(layers[k].par)

(* C07, C08 *)
SquashPreserves == \A k \in DOMAIN layers : layers[k].prov \in {"squash", "squash_upto"} =>
  \A s \in layers[k].src : Content(k) = Content(s) /\ (layers[k].prov = "squash" => layers[k].par = NoLayer)
                                                   /\ (layers[k].prov = "squash_upto" => StrictAncestor(layers[k].par, s))
MergeIsUnion == \A k \in DOMAIN layers : layers[k].prov = "merge" =>
  Content(k) = UNION { Content(s) : s \in layers[k].src } /\ layers[k].par = NoLayer

(* C03 *)
DictsAgree == \A a, b \in DOMAIN dict :
  IsAncestor(a, b) => /\ DictExtends(dict[a], dict[b])
                      /\ DictWellFormed(Content(a), dict[a])

(* C12, C13: heads are layers of the store *)
HeadsPresent == \A st \in DOMAIN dbs : \A n \in DOMAIN dbs[st] :
  LET d == dbs[st][n] IN (d.head = NoLayer \/ Present(st, d.head)) /\ (d.head # NoLayer => d.version > 0)

(* C04: committed layers never change, and stay where they are; a builder commits at most once *)
Immutable == [][ /\ \A k \in DOMAIN layers : k \in DOMAIN layers' /\ layers'[k] = layers[k]
                 /\ \A st \in DOMAIN avail : avail[st] \subseteq avail'[st]
                 /\ \A b \in DOMAIN builders : builders[b].done => (b \notin DOMAIN builders' \/ builders'[b] = builders[b])
                 /\ \A k \in DOMAIN dict : k \in DOMAIN dict' /\ dict'[k] = dict[k] ]_vars

(* C10: a surviving database's version counts its updates *)
VersionsCount == [][ \A st \in DOMAIN dbs : \A n \in DOMAIN dbs[st] \cap DOMAIN dbs'[st] :
     dbs'[st][n] # dbs[st][n] =>
        dbs'[st][n].version = dbs[st][n].version + 1 ]_vars

(* C12: one call touches at most one name *)
NamesIndependent == [][ Cardinality({ <<st, n>> \in { <<s, x>> : s \in DOMAIN dbs, x \in UNION { DOMAIN dbs[s2] \cup DOMAIN dbs'[s2] : s2 \in DOMAIN dbs } } :
       (n \in DOMAIN dbs[st] \cup DOMAIN dbs'[st]) /\ ~(n \in DOMAIN dbs[st] /\ n \in DOMAIN dbs'[st] /\ dbs[st][n] = dbs'[st][n]) }) <= 1 ]_vars
=============================================================================
