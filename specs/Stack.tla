-------------------------------- MODULE Stack --------------------------------
(***************************************************************************)
(* How layers are represented and maintained: every layer is a directory   *)
(* with its own sorted dictionaries, id maps and changes in terms of ids   *)
(* (src/layer, src/storage/layer.rs); a rollup is one more directory that  *)
(* is loaded in place of a layer (delta.rs, id_map.rs, rollup.rs); loading *)
(* goes through a cache of what is in use (cache.rs), so that a client may *)
(* hold stacks that were put together before, between or after rollups.    *)
(*                                                                         *)
(* Whatever a client can get hold of must show the layer of TerminusStore  *)
(* it stands for: content, ids, parent, changes (Shows).                   *)
(* One action per maintenance call.  Flaw names a deliberate mistake.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS N,          \* layers built at the start, one upon the other
          Changes,    \* what the layers add and remove: [a, r], sets of triples of terms
          MaxDirs,    \* directories ever
          MaxKids,    \* layers made later (children, squashes)
          Flaw

VARIABLES
  dirs,    \* name -> directory: [par, nd, vd, pd, nmap, pmap, pos, neg]
  ptr,     \* layer -> its rollup, or 0
  held,    \* layer -> what the client holds, or Nil
  cache,   \* name -> loaded object, or Nil
  lay,     \* layer -> what it is: [par, content, so, ps]
  kids,
  hist     \* the calls so far
rep == <<dirs, ptr, held, cache, lay, kids>>
vars == <<rep, hist>>

(* terms are numbers in the order of their strings; values are beyond 100 *)
IsValue(x) == x > 100
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
At(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x
In(s, x) == \E j \in 1..Len(s) : s[j] = x
Cat(ss) == FlattenSeq(ss)
Nil == [nm |-> 0]

-----------------------------------------------------------------------------
(* directories and stacks of directories *)

(* the terms of a directory, in the order of their ids *)
Unmap(m) == [j \in 1..Len(m) |-> At(m, j)]
SoD(d) == LET own == d.nd \o d.vd IN [j \in 1..Len(own) |-> own[Unmap(d.nmap)[j]]]
PsD(d) == [j \in 1..Len(d.pd) |-> d.pd[Unmap(d.pmap)[j]]]
(* of a stack (a sequence of names of directories, lowest first) *)
So(D, st) == Cat([j \in 1..Len(st) |-> SoD(D[st[j]])])
Ps(D, st) == Cat([j \in 1..Len(st) |-> PsD(D[st[j]])])
(* changes of a stack, taken together *)
RECURSIVE Net(_, _)
Net(D, st) ==
  IF st = <<>> THEN [p |-> {}, n |-> {}]
  ELSE LET b == Net(D, SubSeq(st, 1, Len(st) - 1))
           d == D[st[Len(st)]]
       IN [p |-> (b.p \ d.neg) \cup (d.pos \ (IF Flaw = "readd" THEN {} ELSE b.n)),
           n |-> (b.n \ d.pos) \cup (d.neg \ (IF Flaw = "keepneg" THEN {} ELSE b.p))]
IdsOf(D, st) == Net(D, st).p
Term(D, st, t) == <<So(D, st)[t[1]], Ps(D, st)[t[2]], So(D, st)[t[3]]>>
Terms(D, st, ts) == LET so == So(D, st) ps == Ps(D, st) IN { <<so[t[1]], ps[t[2]], so[t[3]]>> : t \in ts }
Id(D, st, t) == <<At(So(D, st), t[1]), At(Ps(D, st), t[2]), At(So(D, st), t[3])>>

Ident(n) == [j \in 1..n |-> j]
NodesOf(ts) == { t[1] : t \in ts } \cup { x \in { t[3] : t \in ts } : ~IsValue(x) }
ValuesOf(ts) == { x \in { t[3] : t \in ts } : IsValue(x) }
PredsOf(ts) == { t[2] : t \in ts }
(* a directory on top of stack st, with the terms of add that are not known yet *)
Fresh(D, st, par, add, rem) ==
  LET so == So(D, st)
      ps == Ps(D, st)
      nd == Sorted({ x \in NodesOf(add) : ~In(so, x) })
      vd == Sorted({ x \in ValuesOf(add) : ~In(so, x) })
      pd == Sorted({ x \in PredsOf(add) : ~In(ps, x) })
      so2 == so \o nd \o vd
      ps2 == ps \o pd
      I(ts) == { <<At(so2, t[1]), At(ps2, t[2]), At(so2, t[3])>> : t \in ts }
  IN [par |-> par, nd |-> nd, vd |-> vd, pd |-> pd, nmap |-> Ident(Len(nd) + Len(vd)), pmap |-> Ident(Len(pd)), pos |-> I(add), neg |-> I(rem)]

(* the directories st in one, to be put on top of par *)
Merged(D, st, par) ==
  LET so == So(D, st)
      ps == Ps(D, st)
      nd == Sorted({ x \in ToSet(so) : ~IsValue(x) })
      vd == Sorted({ x \in ToSet(so) : IsValue(x) })
      pd == Sorted(ToSet(ps))
      own == nd \o vd
      net == Net(D, st)
  IN [par |-> par, nd |-> nd, vd |-> vd, pd |-> pd,
      nmap |-> IF Flaw = "nomap" THEN Ident(Len(own)) ELSE [j \in 1..Len(own) |-> At(so, own[j])],
      pmap |-> IF Flaw = "nopmap" THEN Ident(Len(pd)) ELSE [j \in 1..Len(pd) |-> At(ps, pd[j])],
      pos |-> net.p, neg |-> net.n]

-----------------------------------------------------------------------------
(* loaded objects: [nm, d, par, op] - its name, its directory, the object it rests on, the name of its parent *)

RECURSIVE Stack(_)
Stack(o) == IF o = Nil THEN <<>> ELSE Append(Stack(o.par), o.d)
(* what is kept alive by holding an object; a rollup keeps the object of its own directory alive *)
Inner(o) == IF o.nm = o.d THEN {} ELSE {[o EXCEPT !.nm = o.d, !.op = dirs[o.d].par]}
RECURSIVE Parts(_)
Parts(o) == IF o = Nil THEN {} ELSE {o} \cup Inner(o) \cup Parts(o.par)
Alive(h) == UNION { Parts(h[l]) : l \in DOMAIN h }
Prune(c, h) == LET al == Alive(h) IN [x \in DOMAIN c |-> IF c[x] \in al THEN c[x] ELSE Nil]
None == [x \in {} |-> Nil]
Look(c, x) == IF x \in DOMAIN c THEN c[x] ELSE Nil

(* loading layer l: [o, c] the object and the cache afterwards (get_layer_with_cache) *)
RECURSIVE Load(_, _)
Load(c, l) ==
  IF Look(c, l) # Nil THEN [o |-> c[l], c |-> c]
  ELSE IF ptr[l] # 0
       THEN LET r == ptr[l]
                op == IF Flaw = "rollname" THEN dirs[r].par ELSE dirs[l].par
                inner == IF Look(c, r) # Nil THEN [o |-> c[r], c |-> c]
                         ELSE LET below == IF dirs[r].par = 0 THEN [o |-> Nil, c |-> c] ELSE Load(c, dirs[r].par)
                                  o == [nm |-> r, d |-> r, par |-> below.o, op |-> dirs[r].par]
                              IN [o |-> o, c |-> (r :> o) @@ below.c]
                o == [inner.o EXCEPT !.nm = l, !.op = op]
            IN [o |-> o, c |-> (l :> o) @@ inner.c]
       ELSE LET below == IF dirs[l].par = 0 THEN [o |-> Nil, c |-> c] ELSE Load(c, dirs[l].par)
                o == [nm |-> l, d |-> l, par |-> below.o, op |-> dirs[l].par]
            IN [o |-> o, c |-> (l :> o) @@ below.c]
(* the same, remembered by the client *)
Holding(h, c, l) ==
  IF h[l] # Nil THEN [h |-> h, c |-> c]
  ELSE LET x == Load(c, l)
           h2 == [h EXCEPT ![l] = x.o]
       IN [h |-> h2, c |-> Prune(x.c, h2)]

-----------------------------------------------------------------------------
(* histories *)
Layers == DOMAIN lay
RECURSIVE Chain(_)
Chain(l) == IF l = 0 THEN <<>> ELSE Append(Chain(dirs[l].par), l)   \* the original history
Above(l, a) == LET ch == Chain(l) IN SubSeq(ch, Len(Chain(a)) + 1, Len(ch))   \* the layers from a (not included) up to l
Ancestors(l) == ToSet(Chain(l)) \ {l}
New == Cardinality(DOMAIN dirs) + 1
Room == New <= MaxDirs

(* where the objects under o can be cut when all the layers between a and o are to be covered (safe_upto_bound) *)
RECURSIVE Bound(_, _, _)
Bound(o, names, a) ==
  IF o.par = Nil THEN o.nm
  ELSE IF o.par.nm = a THEN a
  ELSE IF In(names, o.par.nm) THEN Bound(o.par, SubSeq(names, 1, At(names, o.par.nm) - 1), a)
  ELSE o.nm
BoundOf(o, a) == IF o.nm = a THEN a ELSE Bound(o, Above(o.nm, a), a)
RECURSIVE Upper(_, _)
Upper(o, b) == IF o = Nil \/ o.nm = b THEN <<>> ELSE Append(Upper(o.par, b), o.d)   \* directories of the objects above b

-----------------------------------------------------------------------------
(* calls *)
Log(s) == hist' = hist \o s

(* reading: a layer is loaded and held *)
Open(l) ==
  /\ LET x == Load(cache, l)
         h2 == [held EXCEPT ![l] = x.o]
     IN held' = h2 /\ cache' = Prune(x.c, h2)
  /\ Log(<<[op |-> "obs", l |-> l]>>)
  /\ UNCHANGED <<dirs, ptr, lay, kids>>
Let(l) ==
  /\ held[l] # Nil
  /\ held' = [held EXCEPT ![l] = Nil] /\ cache' = Prune(cache, held')
  /\ Log(<<[op |-> "drop", l |-> l]>>)
  /\ UNCHANGED <<dirs, ptr, lay, kids>>
LetAll ==
  /\ \E l \in Layers : held[l] # Nil
  /\ held' = [l \in DOMAIN held |-> Nil] /\ cache' = None
  /\ Log(<<[op |-> "dropall"]>>)
  /\ UNCHANGED <<dirs, ptr, lay, kids>>

(* a rollup is written, registered, and the layer's entry in the cache forgotten *)
Registered(l, h, c, d) ==
  /\ dirs' = (New :> d) @@ dirs
  /\ ptr' = [ptr EXCEPT ![l] = New]
  /\ held' = h /\ cache' = Prune((l :> Nil) @@ c, h)
Nothing(h, c) == held' = h /\ cache' = c /\ UNCHANGED <<dirs, ptr>>

RollupAll(l) ==
  LET x == Holding(held, cache, l) IN
  /\ IF dirs[l].par = 0 \/ (ptr[l] # 0 /\ dirs[ptr[l]].par = 0) THEN Nothing(x.h, x.c)
     ELSE Room /\ Registered(l, x.h, x.c, Merged(dirs, Stack(x.h[l]), 0))
  /\ Log(<<[op |-> "rollup", l |-> l]>>) /\ UNCHANGED <<lay, kids>>
RollupUpto(l, a) ==
  LET x0 == Holding(held, cache, l)
      x == Holding(x0.h, x0.c, a)
      o == x.h[l]
      b == BoundOf(o, a)
  IN
  /\ IF dirs[l].par = a \/ (ptr[l] # 0 /\ dirs[ptr[l]].par = a) THEN Nothing(x.h, x.c)
     ELSE Room /\ Registered(l, x.h, x.c, Merged(dirs, IF Flaw = "reach" THEN Upper(o, a) ELSE Above(b, a) \o Upper(o, b), a))
  /\ Log(<<[op |-> "rollup_upto", l |-> l, a |-> a]>>) /\ UNCHANGED <<lay, kids>>
RollupSome(l, a) ==
  LET x0 == Holding(held, cache, l)
      x == Holding(x0.h, x0.c, a)
      o == x.h[l]
      b == IF Flaw = "nobound" THEN a ELSE BoundOf(o, a)
  IN
  /\ IF dirs[l].par = a \/ (ptr[l] # 0 /\ dirs[ptr[l]].par = a) \/ b = l \/ dirs[l].par = b THEN Nothing(x.h, x.c)
     ELSE Room /\ Registered(l, x.h, x.c, Merged(dirs, Upper(o, b), b))
  /\ Log(<<[op |-> "irollup_upto", l |-> l, a |-> a]>>) /\ UNCHANGED <<lay, kids>>

(* a new layer k *)
Made(k, d, content, so, ps, h, c) ==
  /\ dirs' = (k :> d) @@ dirs
  /\ ptr' = (k :> 0) @@ ptr
  /\ lay' = (k :> [par |-> d.par, content |-> content, so |-> so, ps |-> ps]) @@ lay
  /\ kids' = kids + 1
  /\ LET o == [nm |-> k, d |-> k, par |-> IF d.par = 0 THEN Nil ELSE h[d.par], op |-> d.par]
     IN held' = (k :> o) @@ h /\ cache' = Prune((k :> o) @@ c, held')
Requests(b, ch) ==
  LET ss == SetToSeq(ch.r) sa == SetToSeq(ch.a)
  IN [j \in 1..Len(ss) |-> [op |-> "rem", b |-> b, t |-> ss[j]]] \o [j \in 1..Len(sa) |-> [op |-> "add", b |-> b, t |-> sa[j]]]
Kid(l) ==
  LET x == Holding(held, cache, l)
      st == Stack(x.h[l])
      ch == Changes[N + kids + 1]
      have == Terms(dirs, st, IdsOf(dirs, st))
      d == Fresh(dirs, st, l, ch.a \ have, ch.r \cap have)
  IN /\ kids < MaxKids /\ Room
     /\ Made(New, d, (have \ ch.r) \cup ch.a, lay[l].so \o SoD(d), lay[l].ps \o PsD(d), x.h, x.c)
     /\ Log(<<[op |-> "child", l |-> l, b |-> New]>> \o Requests(New, ch) \o <<[op |-> "commit", b |-> New, l |-> New]>>)
Squash(l) ==
  LET x == Holding(held, cache, l)
      st == Stack(x.h[l])
      have == Terms(dirs, st, IdsOf(dirs, st))
      d == Fresh(dirs, <<>>, 0, have, {})
  IN /\ kids < MaxKids /\ Room
     /\ Made(New, d, have, SoD(d), PsD(d), x.h, x.c)
     /\ Log(<<[op |-> "squash", l |-> l, n |-> New]>>)
(* only the changes as they were written count, whatever was rolled up *)
SquashUpto(l, a) ==
  LET x0 == Holding(held, cache, l)
      x == Holding(x0.h, x0.c, a)
      st == Above(l, a)
      net == Net(dirs, st)
      all == Chain(a) \o st
      low == Chain(a)
      d == Fresh(dirs, low, a, Terms(dirs, all, net.p), IF Flaw = "squashpos" THEN {} ELSE Terms(dirs, all, net.n))
  IN /\ kids < MaxKids /\ Room
     /\ Made(New, d, lay[l].content, lay[a].so \o SoD(d), lay[a].ps \o PsD(d), x.h, x.c)
     /\ Log(<<[op |-> "squash_upto", l |-> l, a |-> a, n |-> New]>>)

-----------------------------------------------------------------------------
(* the layers there are at the start *)
RECURSIVE Built(_)
Built(n) ==
  IF n = 0 THEN [D |-> [x \in {} |-> Nil], o |-> Nil, L |-> [x \in {} |-> Nil], h |-> <<>>, s |-> <<>>]
  ELSE LET b == Built(n - 1)
           st == Stack(b.o)
           have == Terms(b.D, st, IdsOf(b.D, st))
           ch == Changes[n]
           d == Fresh(b.D, st, n - 1, ch.a \ have, ch.r \cap have)
           o == [nm |-> n, d |-> n, par |-> b.o, op |-> n - 1]
           below == IF n = 1 THEN [so |-> <<>>, ps |-> <<>>] ELSE b.L[n - 1]
       IN [D |-> (n :> d) @@ b.D, o |-> o, h |-> Append(b.h, o),
           L |-> (n :> [par |-> n - 1, content |-> (have \ ch.r) \cup ch.a, so |-> below.so \o SoD(d), ps |-> below.ps \o PsD(d)]) @@ b.L,
           s |-> b.s \o <<IF n = 1 THEN [op |-> "base", b |-> n] ELSE [op |-> "child", l |-> n - 1, b |-> n]>> \o Requests(n, ch) \o <<[op |-> "commit", b |-> n, l |-> n]>>]
Init ==
  LET b == Built(N) IN
  /\ dirs = b.D /\ ptr = [l \in 1..N |-> 0] /\ lay = b.L /\ kids = 0
  /\ \/ held = b.h /\ cache = [l \in 1..N |-> b.h[l]] /\ hist = b.s
     \/ held = [l \in 1..N |-> Nil] /\ cache = None /\ hist = b.s \o <<[op |-> "dropall"]>>

Next ==
  \/ LetAll
  \/ \E l \in Layers :
       \/ Open(l) \/ Let(l) \/ RollupAll(l) \/ Kid(l) \/ Squash(l)
       \/ \E a \in Ancestors(l) : RollupUpto(l, a) \/ RollupSome(l, a) \/ SquashUpto(l, a)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* what o shows is layer l *)
Shows(o, l) ==
  LET st == Stack(o) so == So(dirs, st) ps == Ps(dirs, st) IN
  /\ so = lay[l].so /\ ps = lay[l].ps                       \* ids
  /\ Terms(dirs, st, IdsOf(dirs, st)) = lay[l].content      \* content
  /\ o.op = lay[l].par                                      \* history
RECURSIVE Sound(_)
Sound(o) == IF o = Nil THEN TRUE ELSE (o.nm \in Layers => Shows(o, o.nm)) /\ Sound(o.par)

HeldRight == \A l \in Layers : Sound(held[l])
CacheRight == \A x \in DOMAIN cache : cache[x] # Nil => Sound(cache[x])
(* loading now, with whatever is cached, or from scratch *)
LoadRight == \A l \in Layers : Sound(Load(cache, l).o) /\ Sound(Load(None, l).o)
(* a layer's own changes are read from its own directory *)
ChangesRight == \A l \in Layers :
  LET d == dirs[l]
      below == IF lay[l].par = 0 THEN {} ELSE lay[lay[l].par].content
      st == Chain(l)
  IN Terms(dirs, st, d.pos) = lay[l].content \ below /\ Terms(dirs, st, d.neg) = below \ lay[l].content
RollupsApart == \A l \in Layers : ptr[l] # 0 => ptr[l] \notin Layers /\ dirs[ptr[l]].par \in {0} \cup Ancestors(l)

(* two vocabularies and histories: dictionaries that interleave, removals, re-additions, new predicates *)
V1 == <<[a |-> {<<3, 2, 103>>, <<5, 2, 3>>}, r |-> {}],
        [a |-> {<<2, 1, 102>>, <<3, 2, 5>>}, r |-> {<<5, 2, 3>>}],
        [a |-> {<<5, 2, 3>>, <<4, 3, 101>>}, r |-> {<<2, 1, 102>>}],
        [a |-> {<<1, 1, 104>>, <<2, 1, 102>>}, r |-> {<<3, 2, 103>>, <<5, 2, 3>>}],
        [a |-> {<<6, 0, 100>>, <<3, 2, 103>>}, r |-> {<<4, 3, 101>>}],
        [a |-> {<<0, 4, 105>>}, r |-> {<<3, 2, 103>>, <<1, 1, 104>>}],
        [a |-> {<<7, 1, 0>>}, r |-> {<<7, 1, 1>>}]>>
(* only removals and re-additions on top of a base; empty layers *)
V2 == <<[a |-> {<<1, 1, 101>>, <<1, 1, 2>>, <<2, 2, 101>>}, r |-> {}],
        [a |-> {}, r |-> {<<1, 1, 101>>}],
        [a |-> {}, r |-> {}],
        [a |-> {<<1, 1, 101>>}, r |-> {<<2, 2, 101>>}],
        [a |-> {<<2, 2, 101>>}, r |-> {<<1, 1, 2>>, <<1, 1, 101>>}],
        [a |-> {<<1, 1, 101>>, <<1, 1, 2>>}, r |-> {}]>>
=============================================================================
