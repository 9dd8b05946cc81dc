----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Judges traces of the real library against TerminusStore.  Every event    *)
(* is one public call with its arguments, result and (for layers) a full   *)
(* observation.  The call's action of TerminusStore is applied; every      *)
(* disagreement between what the specification prescribes and what was     *)
(* observed is reported as a VIOL line with the properties it contradicts. *)
(* A trace may hold many runs; each starts with a "script" event.          *)
(* After a call during which the process was killed, both outcomes are     *)
(* followed; the run is wrong if every outcome is contradicted.            *)
(***************************************************************************)
EXTENDS TerminusStore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  i,         \* position in the trace
  skip,      \* the current run is no longer comparable
  tags,      \* layer -> properties its origin depends on (delta, diff, squash, merge), inherited
  btags,     \* builder -> the same for pending builders
  rolled,    \* store -> layers rolled up there
  reopened,  \* store -> layers that were there at a restart
  imported,  \* store -> layers that came from a pack
  seen,      \* <<store, layer>> observed before
  crashed,   \* what happened earlier in this run: {"C14"} the process was killed, {"C19"} a call of the file system failed
  alt        \* which of the possible outcomes of interrupted calls this is about (1, then a bit for each)
tvars == <<i, skip, tags, btags, rolled, reopened, imported, seen, crashed, alt>>
allvars == <<vars, tvars>>

Stores == 0..3
ResetAll ==
  /\ layers' = Empty /\ builders' = Empty /\ packs' = Empty /\ dict' = Empty
  /\ dbs' = [st \in Stores |-> Empty] /\ avail' = [st \in Stores |-> {}]
  /\ skip' = FALSE /\ tags' = Empty /\ btags' = Empty
  /\ rolled' = [st \in Stores |-> {}] /\ reopened' = [st \in Stores |-> {}] /\ imported' = [st \in Stores |-> {}]
  /\ seen' = {} /\ crashed' = {} /\ alt' = 1

TraceInit ==
  /\ layers = Empty /\ builders = Empty /\ packs = Empty /\ dict = Empty
  /\ dbs = [st \in Stores |-> Empty] /\ avail = [st \in Stores |-> {}]
  /\ i = 1 /\ skip = TRUE /\ tags = Empty /\ btags = Empty
  /\ rolled = [st \in Stores |-> {}] /\ reopened = [st \in Stores |-> {}] /\ imported = [st \in Stores |-> {}]
  /\ seen = {} /\ crashed = {} /\ alt = 1

Say(s) == \A v \in s : PrintT("VIOL " \o ToJson([line |-> i, alt |-> alt, tags |-> v[1], what |-> v[2]]))
Has(e, f) == f \in DOMAIN e
V(t, w) == <<t, w>>
When(c, t, w) == IF c THEN {V(t, w)} ELSE {}
SetOf(s) == { s[j] : j \in DOMAIN s }

CT == crashed
(* properties that depend on where the layer has been *)
T(st, k) ==
  IF ~Known(k) THEN {} ELSE
  tags[k]
  \cup (IF rolled[st] \cap Ancestry(k) # {} THEN {"C06"} ELSE {})
  \cup (IF k \in reopened[st] THEN {"C13"} ELSE {})
  \cup (IF k \in imported[st] THEN {"C15"} ELSE {})
  \cup CT
StT(st) == (IF reopened[st] # {} THEN {"C13"} ELSE {}) \cup CT
Origin(k) == CASE layers[k].prov \in {"base", "child"} -> {"C01"}
               [] layers[k].prov \in {"squash", "squash_upto"} -> {"C07"}
               [] OTHER -> {"C08"}

-----------------------------------------------------------------------------
(* a full observation o of layer k in store st, judged in the state where k exists (lys, dct: layers and dict there) *)
Judge(o, st, k, extra) ==
  LET tt == extra \cup (IF <<st, k>> \in seen THEN {"C04"} ELSE {})
      n == Len(o.so)
      m == Len(o.ps)
      IdOK(x) == x[1] \in 1..n /\ x[3] \in 1..n /\ x[2] \in 1..m
      Tr(x) == <<o.so[x[1]], o.ps[x[2]], o.so[x[3]]>>
      ids == SetOf(o.t)
      idsOK == \A x \in ids : IdOK(x)
      names == { Tr(x) : x \in ids }
      d == [so |-> o.so, nd |-> o.nd, ps |-> o.ps]
      adOK == \A x \in SetOf(o.ad) \cup SetOf(o.rm) : IdOK(x)
  IN
  (* C01 and the layer's origin: content *)
  When(~idsOK \/ names # Content(k), Origin(k) \cup tt, "content")
  (* C02: all queries agree *)
  \cup When(Len(o.t) # Cardinality(ids), {"C02"} \cup tt, "triples() repeats itself")
  \cup When(DOMAIN o.q # {} \/ Len(o.mis) # 0, {"C02"} \cup tt, "pattern queries differ from triples()")
  \cup When(\/ ~(SetOf(o.si) \subseteq ids)
            \/ { <<x[1], x[2]>> : x \in SetOf(o.si) } # { <<x[1], x[2]>> : x \in ids }
            \/ Len(o.si) # Cardinality({ <<x[1], x[2]>> : x \in ids }), {"C02"} \cup tt, "single_triple_sp")
  \cup When(idsOK /\ SetOf(o.pr) # names, {"C02"} \cup tt, "existence by string")
  \cup When(o.cnt[1] # Cardinality(ids) \/ o.cnt[2] # Cardinality(ids), {"C02"} \cup tt, "triple count")
  (* C03: ids *)
  \cup When(\/ o.nvc # n \/ o.pc # m
            \/ ~Injective(o.so) \/ ~Injective(o.ps)
            \/ Len(o.nd) # n \/ Len(o.sj) # n
            \/ \E j \in 1..n : ~(\/ o.nd[j] = 1 /\ o.sj[j] = o.so[j]
                                 \/ o.nd[j] = 0 /\ o.sj[j] = "")
            \/ "" \in Range(o.so), {"C03"} \cup tt, "ids are not one-to-one with terms")
  \cup When(\E x \in SetOf(o.ls) \cup SetOf(o.lo) \cup SetOf(o.lv) :
               IF x[2] = 0 THEN x[1] \in Range(o.so) ELSE ~(x[2] \in 1..n) \/ o.so[x[2]] # x[1],
            {"C03"} \cup tt, "term lookup is not inverse to id lookup")
  \cup When(\E x \in SetOf(o.lp) : IF x[2] = 0 THEN x[1] \in Range(o.ps) ELSE ~(x[2] \in 1..m) \/ o.ps[x[2]] # x[1],
            {"C03"} \cup tt, "predicate lookup is not inverse to id lookup")
  \cup When(Len(o.drv) # 0, {"C02", "C03"} \cup tt, "equivalent queries disagree: " \o o.drv[1])
  \cup When(Len(o.oob) # 0, {"C03"} \cup tt, "ids out of range denote something")
  \cup When(~DictWellFormed(Content(k), d) /\ idsOK /\ names = Content(k), {"C03"} \cup tt, "ids do not cover the content")
  \cup When(\E v \in {Vocabulary(k)} : Range(o.so) # v.so \/ Range(o.ps) # v.ps, {"C03", "C04"} \cup tt, "knows other terms than its history uses")
  \cup When(k \in DOMAIN dict /\ dict[k] # d, {"C03", "C04"} \cup tt, "ids changed")
  \cup When(k \notin DOMAIN dict /\ ~DictStable(k, d), {"C03"} \cup tt, "ids differ along the layer stack")
  \cup When(\/ o.cnt[3] # Cardinality({ j \in 1..Len(o.nd) : o.nd[j] = 1 })
            \/ o.cnt[5] # Cardinality({ j \in 1..Len(o.nd) : o.nd[j] = 0 })
            \/ o.cnt[4] # m, {"C03"} \cup tt, "term counts")
  (* C05: own changes *)
  \cup When(Len(o.errs) # 0, {"C05"} \cup tt, "layer change queries fail")
  \cup (IF Len(o.errs) # 0 THEN {} ELSE
        When(~adOK \/ { Tr(x) : x \in SetOf(o.ad) } # layers[k].adds, {"C05"} \cup tt, "additions")
        \cup When(~adOK \/ { Tr(x) : x \in SetOf(o.rm) } # layers[k].rems, {"C05"} \cup tt, "removals")
        \cup When(Len(o.ad) # Cardinality(SetOf(o.ad)) \/ Len(o.rm) # Cardinality(SetOf(o.rm)), {"C05"} \cup tt, "changes listed twice")
        \cup When(DOMAIN o.adq # {} \/ Len(o.admis) # 0, {"C05"} \cup tt, "addition queries differ from triple_additions()")
        \cup When(DOMAIN o.rmq # {} \/ Len(o.rmmis) # 0, {"C05"} \cup tt, "removal queries differ from triple_removals()")
        \cup When(o.adc # Len(o.ad) \/ o.rmc # Len(o.rm), {"C05"} \cup tt, "change counts"))
  (* C18: history *)
  \cup When(o.par # layers[k].par \/ o.par2 # layers[k].par, {"C18"} \cup tt, "parent")
  \cup When(o.stk # Chain(k), {"C18"} \cup tt, "layer stack names")

(* an observation event on k in st; extra tags *)
Observed(o, st, k) ==
  IF Has(o, "same") THEN {}
  ELSE IF Has(o, "err") THEN
    When(Loadable(st, k), T(st, k) \cup {"C18", "C04"} \cup Origin(k), "layer cannot be read: " \o o.err)
  ELSE IF ~Present(st, k) THEN {V({"C15", "C18"} \cup CT, "layer is available though it was neither committed nor imported")}
  ELSE IF ~Loadable(st, k) THEN {}
  ELSE Judge(o, st, k, T(st, k)) \cup
       When(<<st, k>> \in seen /\ ~Has(o, "eq"), {"C04"} \cup T(st, k), "an observation of the layer changed")

Readable(o, st, k) == ~Has(o, "same") /\ ~Has(o, "err") /\ Loadable(st, k)
DictOf(o) == [so |-> o.so, nd |-> o.nd, ps |-> o.ps]

(* observing: remember that it was seen, and its ids *)
ObsEff(o, st, k) ==
  /\ seen' = IF Readable(o, st, k) THEN seen \cup {<<st, k>>} ELSE seen
  /\ IF Readable(o, st, k) /\ k \notin DOMAIN dict THEN LearnEff(k, DictOf(o)) ELSE dict' = dict

-----------------------------------------------------------------------------
(* one event *)
e == Trace[i]
Same == UNCHANGED vars
KeepT == UNCHANGED <<tags, btags, rolled, reopened, imported, seen>>

(* what the specification says about the outcome: "ok", "err" or "any" *)
BDone(b) == ~(b \in DOMAIN builders) \/ builders[b].done
Expect ==
  CASE e.op \in {"add", "rem", "many", "commit"} -> IF BDone(e.b) THEN "err" ELSE "ok"
    [] e.op \in {"delta", "diff"} -> IF BDone(e.b) THEN "err" ELSE "ok"
    [] e.op = "squash_upto" -> IF StrictAncestor(e.a, e.l) THEN "ok" ELSE "any"
    [] e.op \in {"rollup_upto", "irollup_upto"} -> IF StrictAncestor(e.a, e.l) THEN "ok" ELSE "any"
    [] e.op = "merge" -> IF Len(e.ls) = 0 THEN "any" ELSE "ok"
    [] e.op = "create" -> IF HasDb(e.st, e.name) THEN "err" ELSE "ok"
    [] e.op = "gdelete" -> IF HasDb(e.st, e.name) THEN "ok" ELSE "any"
    [] e.op \in {"head", "sethead", "force", "forcev"} -> IF HasDb(e.st, e.name) THEN "ok" ELSE "err"
    [] e.op \in {"lset", "lclear"} -> IF HasDb(e.st, e.name) THEN "ok" ELSE "any"
    [] OTHER -> "ok"

WrongAncestry == { l \in SetOf(e.ls) : { x[2] : x \in { y \in SetOf(e.anc) : y[1] = l } } # Ancestry(l) \cap SetOf(e.ls) }
OpTags ==
  LET st == IF Has(e, "st") THEN e.st ELSE 0
      lt == (IF Has(e, "l") /\ Known(e.l) THEN T(st, e.l) ELSE {}) \cup StT(st)
      bt == IF Has(e, "b") /\ e.b \in DOMAIN builders
            THEN btags[e.b] \cup (IF builders[e.b].done THEN {"C04"} ELSE {})
            ELSE {}
  IN CT \cup
     CASE e.op = "base" -> {"C01"} \cup lt
       [] e.op = "child" -> {"C01", "C18"} \cup lt
       [] e.op \in {"add", "rem", "many"} -> {"C01"} \cup bt
       [] e.op = "commit" -> {"C01"} \cup bt
       [] e.op \in {"delta", "diff"} -> {"C09"} \cup bt \cup lt
       [] e.op \in {"squash", "squash_upto"} -> {"C07"} \cup lt
       [] e.op = "merge" -> {"C08"} \cup UNION { T(st, e.ls[j]) : j \in DOMAIN e.ls } \cup StT(st)
       [] e.op \in {"rollup", "rollup_upto", "irollup_upto"} -> {"C06"} \cup lt
       [] e.op \in {"create", "open", "delete", "labels", "gdelete"} -> {"C12"} \cup StT(st)
       [] e.op \in {"head"} -> {"C10", "C12"} \cup StT(st)
       [] e.op = "sethead" -> {"C10", "C11"} \cup lt
       [] e.op \in {"force", "forcev"} -> {"C10"} \cup lt
       [] e.op \in {"lget", "lset", "lclear"} -> {"C10"} \cup StT(st)
       [] e.op \in {"get", "layers", "getrandom"} -> {"C18"} \cup lt
       [] e.op = "lstore" -> {"C18", "C05"} \cup lt
       [] e.op = "bname" -> {"C18", "C04"}
       [] e.op = "ancestor" -> {"C18", "C11"} \cup lt
       [] e.op = "ancestors" -> {"C18", "C11"} \cup (IF Has(e, "anc") THEN UNION { T(e.st, l) : l \in WrongAncestry } ELSE {})
       [] e.op \in {"export", "import"} -> {"C15"} \cup StT(st)
       [] e.op = "reopen" -> {"C13"}
       [] OTHER -> {"C18"}

MkTags(par, own) == own \cup (IF par = NoLayer THEN {} ELSE tags[par])
Born(k, t) == tags' = (k :> t) @@ tags

(* effects; each also says what it found wrong with the results *)
BaseEv == /\ Base(e.st, e.b) /\ btags' = (e.b :> {}) @@ btags
          /\ Say(When(e.bad, {"C18", "C01"}, "base builder has a parent"))
          /\ UNCHANGED <<tags, rolled, reopened, imported, seen>>
ChildEv == /\ Child(e.st, e.b, e.l) /\ btags' = (e.b :> tags[e.l]) @@ btags
           /\ Say(When(e.bad, {"C18"} \cup T(e.st, e.l), "builder's parent is not the layer it was opened on"))
           /\ UNCHANGED <<tags, rolled, reopened, imported, seen>>
ReqEv(a) == a /\ KeepT
DeltaEv(a) == a /\ btags' = [btags EXCEPT ![e.b] = @ \cup {"C09"} \cup tags[e.l]]
                /\ UNCHANGED <<tags, rolled, reopened, imported, seen>>
CommitEv ==
  LET B == builders[e.b] IN
  /\ Commit(e.b, e.l)
  /\ Born(e.l, btags[e.b])
  /\ Say(When(e.was \/ ~e.now \/ e.bad, {"C04"}, "committed() or the layer's name is wrong"))
  /\ UNCHANGED <<btags, rolled, reopened, imported, seen>>
MaintEv(a, par, t) ==
  /\ a /\ Born(e.n, MkTags(par, t))
  /\ Say(When(~e.fresh, t, "the result is an existing layer"))
  /\ UNCHANGED <<btags, rolled, reopened, imported, seen>>
RolledEv(a) ==
  /\ a
  /\ rolled' = [rolled EXCEPT ![e.st] = @ \cup {e.l}]
  /\ UNCHANGED <<tags, btags, reopened, imported, seen>>
ReopenEv ==
  /\ Reopen
  /\ reopened' = [st \in Stores |-> avail[st]]
  /\ btags' = Empty
  /\ seen' = IF Has(e, "forget") THEN {} ELSE seen
  /\ UNCHANGED <<tags, rolled, imported>>
ImportEv ==
  /\ Import(e.st, e.x, SetOf(e.ls))
  /\ imported' = [imported EXCEPT ![e.st] = @ \cup ((SetOf(e.ls) \cap packs[e.x]) \ avail[e.st])]
  /\ UNCHANGED <<tags, btags, rolled, reopened, seen>>
Check(s) == Same /\ KeepT /\ Say(s)

Yes(cond, a) ==   \* a call answering yes or no: yes exactly if cond, and then a happened
  IF e.yes = cond THEN (IF cond THEN a ELSE Same) /\ KeepT /\ skip' = FALSE
  ELSE Same /\ KeepT /\ skip' = TRUE
       /\ Say({V(OpTags, e.op \o (IF e.yes THEN " succeeded but must not" ELSE " failed but must succeed"))})

(* what the layer store itself says about a layer, its history and the changes along it *)
JudgeStored ==
  LET k == e.l
      d == dict[k]
      Ok(x) == x[2] \in 1..Len(d.so) /\ x[4] \in 1..Len(d.so) /\ x[3] \in 1..Len(d.ps)
      Set(ch, c) == { <<d.so[x[2]], d.ps[x[3]], d.so[x[4]]>> : x \in { y \in SetOf(ch) : y[1] = c } }
      Wrong(ch, from) == \/ \E x \in SetOf(ch) : ~Ok(x)
                         \/ Len(ch) # Cardinality(SetOf(ch))
                         \/ Set(ch, 1) # Content(k) \ Content(from)
                         \/ Set(ch, 0) # Content(from) \ Content(k)
      tt == T(e.st, k)
  IN When(e.par # layers[k].par, {"C18"} \cup tt, "stored parent")
     \cup When(e.stk # Chain(k), {"C18"} \cup tt, "stored layer stack")
     \cup (IF k \notin DOMAIN dict THEN {} ELSE
           When(\/ e.cnt[1] # Cardinality({ j \in 1..Len(d.nd) : d.nd[j] = 1 })
                \/ e.cnt[3] # Cardinality({ j \in 1..Len(d.nd) : d.nd[j] = 0 })
                \/ e.cnt[2] # Len(d.ps), {"C03"} \cup tt, "stored term counts")
           \cup When(Wrong(e.ch, NoLayer), {"C05"} \cup tt, "stored changes of the whole history")
           \cup When(Has(e, "chu") /\ Wrong(e.chu, e.a), {"C05"} \cup tt, "stored changes since an ancestor"))
     \cup When(Has(e, "stku") /\ e.stku # SubSeq(Chain(k), Len(Chain(e.a)) + 1, Len(Chain(k))), {"C18"} \cup tt, "stored layer stack since an ancestor")

(* layers created while an enumeration was running *)
Meanwhile == IF Has(e, "conc") THEN SetOf(e.conc) ELSE {}
LabelFull(st) == { <<n, dbs[st][n].head, dbs[st][n].version>> : n \in DOMAIN dbs[st] }

Effect ==
  CASE e.op = "base" -> BaseEv /\ skip' = FALSE
    [] e.op = "child" -> ChildEv /\ skip' = FALSE
    [] e.op = "add" -> ReqEv(Add(e.b, e.t)) /\ skip' = FALSE
    [] e.op = "rem" -> ReqEv(Remove(e.b, e.t)) /\ skip' = FALSE
    [] e.op = "many" -> ReqEv(Request(e.b, SetOf(e.adds), SetOf(e.rems))) /\ skip' = FALSE
    [] e.op = "delta" -> DeltaEv(ApplyDelta(e.b, e.l)) /\ skip' = FALSE
    [] e.op = "diff" -> DeltaEv(ApplyDiff(e.b, e.l)) /\ skip' = FALSE
    [] e.op = "commit" -> CommitEv /\ skip' = FALSE
    [] e.op = "dropb" -> (IF e.b \in DOMAIN builders THEN DropBuilder(e.b) ELSE Same) /\ KeepT /\ skip' = FALSE
    [] e.op = "squash" -> MaintEv(Squash(e.st, e.l, e.n), NoLayer, tags[e.l] \cup {"C07"}) /\ skip' = FALSE
    [] e.op = "squash_upto" -> MaintEv(SquashUpto(e.st, e.l, e.a, e.n), e.a, tags[e.l] \cup {"C07"}) /\ skip' = FALSE
    [] e.op = "merge" -> MaintEv(Merge(e.st, SetOf(e.ls), e.n), NoLayer, UNION { tags[l] : l \in SetOf(e.ls) } \cup {"C08"}) /\ skip' = FALSE
    [] e.op = "rollup" -> RolledEv(Rollup(e.st, e.l)) /\ skip' = FALSE
    [] e.op \in {"rollup_upto", "irollup_upto"} -> RolledEv(RollupUpto(e.st, e.l, e.a)) /\ skip' = FALSE
    [] e.op = "reopen" -> ReopenEv /\ skip' = FALSE
    [] e.op \in {"drop", "dropall"} -> Check({}) /\ skip' = FALSE
    [] e.op = "get" -> Check(When(e.found # Present(e.st, e.l) /\ (e.found \/ Loadable(e.st, e.l)), OpTags \cup (IF e.found THEN {"C15"} ELSE {}), "layer lookup by name")) /\ skip' = FALSE
    [] e.op = "getrandom" -> Check(When(e.found, OpTags, "a never built layer was found")) /\ skip' = FALSE
    [] e.op = "lstore" -> Check(JudgeStored) /\ skip' = FALSE
    [] e.op = "bname" -> Check(When(e.found = "found" /\ ~e.committed, OpTags, "lookup of an uncommitted builder's name: " \o e.found)
                               \cup When(e.committed # builders[e.b].done, {"C04"}, "committed()")) /\ skip' = FALSE
    [] e.op = "layers" -> Check(When(SetOf(e.keys) \ Meanwhile # avail[e.st] \ Meanwhile, OpTags \cup {"C15"}, "enumeration of layers: " \o ToString(e.keys) \o " instead of " \o ToString(avail[e.st]))
                               \cup When(e.dups # 0, OpTags, "enumeration repeats layers")) /\ skip' = FALSE
    [] e.op = "ancestor" -> Check(When(e.yes # IsAncestor(e.a, e.l), OpTags, "layer_is_ancestor_of")) /\ skip' = FALSE
    [] e.op = "ancestors" -> Check(When(WrongAncestry # {}, OpTags, "ancestors of layers")) /\ skip' = FALSE
    [] e.op = "create" -> Create(e.st, e.name) /\ KeepT /\ Say(When(e.bad, OpTags, "name of the created database")) /\ skip' = FALSE
    [] e.op = "open" -> Check(When(e.found # HasDb(e.st, e.name) \/ e.bad, OpTags, "open")) /\ skip' = FALSE
    [] e.op = "delete" -> Yes(HasDb(e.st, e.name), Delete(e.st, e.name))
    [] e.op = "gdelete" -> (IF HasDb(e.st, e.name) THEN Delete(e.st, e.name) ELSE Same) /\ KeepT /\ skip' = FALSE
    [] e.op = "labels" -> Check(When(SetOf(e.names) # DOMAIN dbs[e.st] \/ Len(e.names) # Cardinality(DOMAIN dbs[e.st]), OpTags, "listing of databases")
                               \cup When(Has(e, "full") /\ SetOf(e.full) # LabelFull(e.st), OpTags \cup {"C10"}, "label values")) /\ skip' = FALSE
    [] e.op = "head" -> Check(When(e.head # Db(e.st, e.name).head \/ e.head2 # e.head \/ e.version # Db(e.st, e.name).version, OpTags, "head")) /\ skip' = FALSE
    [] e.op = "sethead" -> Yes(FastForward(e.st, e.name, e.l), SetHead(e.st, e.name, e.l))
    [] e.op = "force" -> ForceHead(e.st, e.name, e.l) /\ KeepT /\ skip' = FALSE
    [] e.op = "forcev" -> Yes(Db(e.st, e.name).version = e.v, ForceHeadVersion(e.st, e.name, e.l, e.v))
    [] e.op = "lget" -> Check(When(e.found # HasDb(e.st, e.name) \/ (e.found /\ HasDb(e.st, e.name) /\ [head |-> e.head, version |-> e.version] # Db(e.st, e.name)), OpTags, "get_label")) /\ skip' = FALSE
    [] e.op \in {"lset", "lclear"} ->
         LET nh == IF e.op = "lset" THEN e.l ELSE NoLayer IN
         /\ Yes(HasDb(e.st, e.name) /\ Db(e.st, e.name) = [head |-> e.bhead, version |-> e.bversion],
                CasHead(e.st, e.name, e.bhead, e.bversion, nh))
         /\ Say(When(e.yes /\ (e.head # nh \/ e.version # e.bversion + 1 \/ e.bad), OpTags, "label returned by set"))
    [] e.op = "export" -> /\ Export(e.st, e.x, SetOf(e.ls)) /\ KeepT /\ skip' = FALSE
                          /\ Say(When(SetOf(e.parents) # PackParents(SetOf(e.ls)), OpTags, "parents read from the pack"))
    [] e.op = "import" -> ImportEv /\ skip' = FALSE
    [] OTHER -> Assert(FALSE, <<"unknown event", e>>)

IsCrash == IF e.op = "script" THEN FALSE ELSE e.r = "crash"

VARIABLE pend   \* the event's observation is still to be judged

(* The process was killed during this call. Either nothing happened yet, or the call had its effect
   (CrashCond: it has one). Of a call importing layers each layer may have arrived: those found afterwards are in e.got.
   New layers nobody refers to (squash, merge, rollup) make no difference. *)
CrashCond ==
  CASE e.op = "commit" -> OpenB(e.b) /\ ~Known(e.l)
    [] e.op = "create" -> ~HasDb(e.st, e.name)
    [] e.op \in {"delete", "gdelete"} -> HasDb(e.st, e.name)
    [] e.op = "sethead" -> HasDb(e.st, e.name) /\ FastForward(e.st, e.name, e.l)
    [] e.op = "force" -> HasDb(e.st, e.name)
    [] e.op = "forcev" -> HasDb(e.st, e.name) /\ Db(e.st, e.name).version = e.v
    [] e.op \in {"lset", "lclear"} -> HasDb(e.st, e.name) /\ Db(e.st, e.name) = [head |-> e.bhead, version |-> e.bversion]
    [] OTHER -> FALSE
CrashEff ==
  CASE e.op = "commit" -> Commit(e.b, e.l) /\ Born(e.l, btags[e.b])
    [] e.op = "ancestors" -> Check(When(WrongAncestry # {}, OpTags, "ancestors of layers")) /\ skip' = FALSE
    [] e.op = "create" -> Create(e.st, e.name) /\ tags' = tags
    [] e.op \in {"delete", "gdelete"} -> Delete(e.st, e.name) /\ tags' = tags
    [] e.op = "sethead" -> SetHead(e.st, e.name, e.l) /\ tags' = tags
    [] e.op = "force" -> ForceHead(e.st, e.name, e.l) /\ tags' = tags
    [] e.op = "forcev" -> ForceHeadVersion(e.st, e.name, e.l, e.v) /\ tags' = tags
    [] e.op = "lset" -> CasHead(e.st, e.name, e.bhead, e.bversion, e.l) /\ tags' = tags
    [] e.op = "lclear" -> CasHead(e.st, e.name, e.bhead, e.bversion, NoLayer) /\ tags' = tags
Killed ==
  /\ \/ /\ alt' = 2 * alt
        /\ IF e.op = "import"
           THEN /\ Import(e.st, e.x, SetOf(e.got))
                /\ imported' = [imported EXCEPT ![e.st] = @ \cup (SetOf(e.got) \ avail[e.st])] /\ tags' = tags
           ELSE Same /\ UNCHANGED <<tags, imported>>
     \/ alt' = 2 * alt + 1 /\ CrashCond /\ CrashEff /\ UNCHANGED imported
  /\ PrintT("ALT " \o ToJson([line |-> i, alt |-> alt']))
  /\ crashed' = crashed \cup (IF Has(e, "io") THEN {"C19"} ELSE {"C14"}) /\ i' = i + 1
  /\ UNCHANGED <<skip, pend, btags, rolled, reopened, seen>>

(* observations carried by an event are a step of their own, after the event's effect *)
ObsKey == IF e.op = "commit" \/ e.op = "obs" THEN e.l ELSE e.n
ObsStore == IF e.op = "commit" THEN builders[e.b].st ELSE e.st

(* a read that fails is reported but leaves the run comparable *)
ReadOnly == {"layers", "get", "getrandom", "labels", "bname", "ancestor", "ancestors", "lstore", "open", "head", "lget", "obs", "drop", "dropall"}

Step ==
  \/ /\ pend
     /\ pend' = FALSE /\ i' = i + 1 /\ skip' = FALSE
     /\ Say(Observed(e.obs, ObsStore, ObsKey))
     /\ ObsEff(e.obs, ObsStore, ObsKey)
     /\ UNCHANGED <<crashed, alt, layers, builders, dbs, packs, avail, tags, btags, rolled, reopened, imported>>
  \/ /\ ~pend /\ IsCrash
     /\ IF skip THEN Same /\ KeepT /\ UNCHANGED <<skip, pend, alt>> /\ i' = i + 1 /\ UNCHANGED crashed ELSE Killed
  \/ /\ ~pend /\ ~IsCrash
     /\ IF e.op = "script" THEN TRUE ELSE UNCHANGED <<crashed, alt>>
     /\ IF e.op = "script" THEN
           /\ ResetAll /\ pend' = FALSE /\ i' = i + 1
           /\ Say(When(e.diff >= 0, {"C13"}, "backend " \o e.backend \o " differs from the reference at operation " \o ToString(e.diff)))
        ELSE IF skip \/ Has(e, "skip") THEN
           /\ Same /\ KeepT /\ UNCHANGED <<skip, pend>> /\ i' = i + 1
        ELSE IF e.op = "obs" /\ e.r = "ok" THEN
           /\ Same /\ KeepT /\ UNCHANGED <<skip, i>> /\ pend' = TRUE
        ELSE IF e.r = "panic" \/ (Expect # "any" /\ Expect # e.r) THEN
           /\ Same /\ KeepT /\ skip' = (e.op \notin ReadOnly) /\ pend' = FALSE /\ i' = i + 1
           /\ Say({V(OpTags, e.op \o " returned " \o e.r \o (IF Has(e, "msg") THEN " (" \o e.msg \o ")" ELSE "")
                     \o (IF Expect = "any" THEN "" ELSE " instead of " \o Expect))})
        ELSE IF e.r # "ok" THEN
           (* an error that is due, and changes nothing *)
           /\ Same /\ KeepT /\ skip' = FALSE /\ pend' = FALSE /\ i' = i + 1
           /\ Say(When(e.op = "commit" /\ (~e.was \/ ~e.now), {"C04"}, "committed() after a failed second commit"))
        ELSE IF Expect = "any" /\ e.op # "gdelete" THEN
           (* outside what the properties speak about: stop judging this run *)
           /\ Same /\ KeepT /\ skip' = TRUE /\ pend' = FALSE /\ i' = i + 1
        ELSE
           /\ Effect
           /\ IF Has(e, "obs") /\ ~skip' THEN pend' = TRUE /\ i' = i ELSE pend' = FALSE /\ i' = i + 1

TraceNext == i <= Len(Trace) /\ Step
TraceSpec == TraceInit /\ pend = FALSE /\ [][TraceNext]_<<allvars, pend>>

(* the specification's own invariants hold along every trace *)
TraceInv == ContentIsFold
Accepted == /\ TLCSet(1, i) /\ TRUE
AllConsumed == PrintT("DONE " \o ToString(TLCGet(1)) \o " " \o ToString(Len(Trace)))
View == <<i, pend, alt>>
=============================================================================
