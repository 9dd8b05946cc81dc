-------------------------- MODULE MCTerminusStore --------------------------
(* Exhaustive model of TerminusStore with small constants. The builder's    *)
(* requests are made in one step (their order cannot matter: Request only   *)
(* unions), which keeps every reachable layer graph within reach.           *)
EXTENDS TerminusStore
CONSTANTS Triples, MaxLayers, MaxBuilders, Names, Stores, MaxVersion, Features

T1 == { <<"a","p","b">> }
T2 == { <<"a","p","b">>, <<"b","q","a">> }
T3 == { <<"a","p","b">>, <<"b","q","a">>, <<"a","q","v">> }

Next0Key == Cardinality(DOMAIN layers) + 1
NextB == Cardinality(DOMAIN builders) + 1
Room == Cardinality(DOMAIN layers) < MaxLayers
Has(f) == f \in Features

Init ==
  /\ layers = Empty /\ builders = Empty /\ packs = Empty /\ dict = Empty
  /\ dbs = [st \in Stores |-> Empty]
  /\ avail = [st \in Stores |-> {}]

Perms(S) == { f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : f[i] = f[j] => i = j }
Ls == DOMAIN layers
(* build, request and commit in one step *)
Build(st, par, a, r) ==
  /\ (par = NoLayer \/ (Known(par) /\ Loadable(st, par)))
  /\ Room
  /\ NewLayer(st, Next0Key, par, Apply(Content(par), a, r), IF par = NoLayer THEN "base" ELSE "child", {})
  /\ UNCHANGED <<builders, dbs, packs, dict>>

Next ==
  \/ /\ Has("build") /\ Room
     /\ \E st \in Stores, par \in Ls \cup {NoLayer}, a \in SUBSET Triples, r \in SUBSET Triples : Build(st, par, a, r)
  \/ /\ Has("builders") /\ Cardinality(DOMAIN builders) < MaxBuilders
     /\ \E st \in Stores : Base(st, NextB) \/ \E l \in Ls : Child(st, NextB, l)
  \/ /\ Has("builders")
     /\ \E b \in DOMAIN builders :
          \/ \E t \in Triples : Add(b, t) \/ Remove(b, t)
          \/ \E l \in Ls : ApplyDelta(b, l) \/ ApplyDiff(b, l)
          \/ Room /\ Commit(b, Next0Key)
  \/ /\ Has("squash") /\ Room
     /\ \E st \in Stores, l \in Ls : Squash(st, l, Next0Key) \/ \E a \in Ls : SquashUpto(st, l, a, Next0Key)
  \/ /\ Has("merge") /\ Room
     /\ \E st \in Stores, ls \in SUBSET Ls : Cardinality(ls) <= 2 /\ Merge(st, ls, Next0Key)
  \/ /\ Has("dict")
     /\ \E k \in Ls \ DOMAIN dict :
          LET terms == Nodes(Content(k)) \cup Objs(Content(k))
              ps == Preds(Content(k))
              base == IF \E a \in DOMAIN dict : IsAncestor(a, k) THEN
                         LET a == CHOOSE a \in DOMAIN dict : IsAncestor(a, k) /\ \A b \in DOMAIN dict : IsAncestor(b, k) => Len(dict[b].so) <= Len(dict[a].so)
                         IN dict[a]
                      ELSE [so |-> <<>>, nd |-> <<>>, ps |-> <<>>]
          IN \E s \in Perms(terms \ Range(base.so)), p \in Perms(ps \ Range(base.ps)) :
               Learn(k, [so |-> base.so \o s, nd |-> base.nd \o [i \in 1..Len(s) |-> 1], ps |-> base.ps \o p])
  \/ /\ Has("dbs")
     /\ \E st \in Stores, n \in Names :
          \/ Create(st, n) \/ Delete(st, n)
          \/ HasDb(st, n) /\ Db(st, n).version < MaxVersion /\
             \E l \in Ls : \/ SetHead(st, n, l) \/ ForceHead(st, n, l)
                           \/ \E v \in 0..MaxVersion : ForceHeadVersion(st, n, l, v)
                           \/ \E v \in 0..MaxVersion, bh \in Ls \cup {NoLayer} : CasHead(st, n, bh, v, l)
  \/ /\ Has("packs")
     /\ \E st \in Stores, ls \in SUBSET Ls : \/ Cardinality(DOMAIN packs) < 1 /\ Export(st, 1, ls)
                                            \/ \E x \in DOMAIN packs : Import(st, x, ls)
  \/ Has("builders") /\ Reopen

Spec == Init /\ [][Next]_vars

(* C11: an unforced update only moves a head forward; whatever was published before stays in its history *)
FastForwardOnly == [][ \A st \in Stores, n \in Names, l \in Ls :
   (SetHead(st, n, l)) => \/ Db(st, n).head = NoLayer
                          \/ Db(st, n).head \in Ancestry(dbs'[st][n].head) ]_vars

(* C09: a diff turns any parent into exactly the given layer; replaying all deltas rebuilds a layer *)
DiffLaw == \A k, l \in Ls \cup {NoLayer} : Apply(Content(k), Content(l) \ Content(k), Content(k) \ Content(l)) = Content(l)
DeltaLaw == \A k \in Ls, p \in Ls \cup {NoLayer} :
   Content(p) = Content(layers[k].par) => Apply(Content(p), layers[k].adds, layers[k].rems) = Content(k)

(* C01: the order and repetition of requests cannot matter, opposite requests cancel *)
CancelLaw == \A k \in Ls \cup {NoLayer}, t \in Triples : Apply(Content(k), {t}, {t}) = Content(k)
=============================================================================
