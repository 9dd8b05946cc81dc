#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

SB="src/layer/simple_builder.rs"; IL="src/layer/internal/mod.rs"; CH="src/layer/internal/child.rs"; BA="src/layer/internal/base.rs"
SL="src/storage/layer.rs"; ST="src/store/mod.rs"; DE="src/storage/delta.rs"; CA="src/storage/cache.rs"; AR="src/storage/archive.rs"
DI="src/storage/directory.rs"; ME="src/storage/memory.rs"; LA="src/storage/label.rs"; LO="src/storage/locking.rs"; PK="src/storage/pack.rs"; IM="src/layer/id_map.rs"

p("C01","Layer content is exactly the fold of its committed changes",
 "The set of triples in a committed layer equals the set in its parent (empty for a base layer), minus the triples its builder asked to remove, plus the triples it asked to add; a triple both added and removed in one builder is left as the parent has it, adding a present triple or removing an absent one changes nothing. This holds whether changes are given as strings or as ids, in whatever order and with whatever repetition, for node, string and typed values alike.",
 ["inputs","histories"],"every stack of builders over every multiset and order of additions/removals (string or id form), every storage backend",
 "Tests build a handful of fixed two- or three-layer stacks over a few animals; they never combine re-adding, cancelling, removing unknown terms, id/string mixes and deep stacks.",
 [SB,CH,BA,IL,"src/layer/builder.rs","src/layer/layer.rs"],
 [("additions/removals","pending changes of one builder",SB),("pos/neg adjacency lists","what a committed layer adds and removes over its parent",CH)],
 [("sort, dedup, cancel and resolve changes at commit",SB+" commit"),("filter additions already present / removals not present",CH+" ChildLayerFileBuilderPhase2"),("stack iteration cancels negatives",IL+" triple iterators")],
 ["StoreLayer.triples()","Layer.string_triple_exists / value_triple_exists","StoreLayerBuilder.commit"])

p("C02","Every way of querying a layer agrees with its triple set",
 "For every layer and every subject, predicate and object (known or unknown), enumeration by nothing, by subject, by subject+predicate, by predicate and by object returns exactly the layer's triples matching that pattern, each exactly once. Existence tests by id and by string, the single-result subject+predicate query, and the reported triple count agree with the same set.",
 ["inputs","histories"],"all layer stacks (including rolled-up, squashed, merged, imported ones), all query patterns and all argument values including ids outside the layer's range",
 "Tests query a few patterns on a few fixed layers; correctness of merged positive/negative indexes depends on every combination of which layer of the stack holds which part of a subject/predicate/object run.",
 [IL,CH,BA,"src/layer/internal/subject_iterator.rs","src/layer/internal/predicate_iterator.rs","src/layer/internal/object_iterator.rs","src/layer/layer.rs"],
 [("s_p/sp_o adjacency lists, o_ps index, predicate wavelet tree","the four physical indexes of each delta",BA+", "+CH)],
 [("per-pattern stack iterators","src/layer/internal/{subject,predicate,object}_iterator.rs"),("index builders","src/layer/internal/base.rs, child.rs")],
 ["Layer::triples, triples_s, triples_sp, triples_p, triples_o, single_triple_sp, triple_exists, value_triple_exists, triple_count"])

p("C03","Term ids are one-to-one and stable along the layer stack",
 "In every layer, each id in range denotes exactly one term, distinct terms of a kind have distinct ids, looking a term up and looking its id up are inverse, and ids or terms the layer does not know yield nothing (a node and a value with equal text are different terms). A descendant layer resolves every id of its ancestors to the same term and every term of its ancestors to the same id, also after rollup, reload, export and import. A layer knows exactly the terms of the triples added along its history (a merged layer: of its inputs' histories); a removal, or an addition that is cancelled, makes no term known.",
 ["inputs","histories"],"all dictionaries (nodes, predicates, string and typed values, sizes across dictionary block boundaries) and all stacks built on them, all maintenance histories",
 "Tests look up a few terms in fixed dictionaries; stability under rollup remapping of a stack of dictionaries is checked on one or two examples.",
 [IL,IM,DE,SB,CH],
 [("node/value/predicate dictionaries","per-layer sorted term blocks","src/layer/internal/mod.rs"),("id maps","permutation that keeps ids after rollup",IM)],
 [("stacked offset arithmetic for id<->term",IL),("id map construction on rollup",IM+" construct_idmaps*, "+DE+" dictionary_rollup*")],
 ["Layer::subject_id, predicate_id, object_node_id, object_value_id, id_subject, id_predicate, id_object, id_object_is_node, node_and_value_count, predicate_count"])

p("C04","Committed layers never change and uncommitted work is never visible",
 "Once committed, everything observable about a layer stays the same for ever, through every handle obtained before or after, whatever other builders, commits, rollups, squashes, deletes, reloads or cache evictions follow. Work in a builder is visible nowhere until its commit; a builder commits at most once, every later use of it fails with an error and changes nothing, and an abandoned builder leaves no trace.",
 ["histories","programs"],"all interleavings of operations on several builders, layers and handles (held, dropped and reopened)",
 "Tests check a layer right after building it; none re-observes every old handle after each later operation of a long history.",
 [ST,CA,SL,SB],
 [("builder option","None once committed",ST+" StoreLayerBuilder"),("layer files","written once at commit",SL)],
 [("builder is consumed on commit",ST+" commit_no_load"),("rollups are separate layers, only pointed at",SL+" register_rollup")],
 ["StoreLayer handles, Store::get_layer_from_id, StoreLayerBuilder::{committed,commit,add_*,remove_*}"])

p("C05","A layer's own additions and removals are exactly its change over its parent",
 "For every layer, the reported additions are exactly the triples in it that are not in its parent, the reported removals exactly the parent's triples that are not in it (for a base layer: all its triples and none), each listed once. The per-subject, per-predicate, per-object and subject+predicate variants, the existence variants and the per-layer counts agree with those two sets, and all of them keep giving the same answers after any rollup, reload or import of the layer.",
 ["inputs","histories"],"all layer stacks and all patterns, before and after every sequence of rollups and cache evictions",
 "Tests compare deltas for a few hand-built layers; the disk-side delta queries used after a rollup have a handful of examples.",
 [ST,SL,CA,CH,BA,"src/layer/internal/mod.rs"],
 [("pos_*/neg_* structures","delta of one layer",CH)],
 [("delta queries answered from memory or, for rolled-up layers, from the original layer's files",SL+" triple_additions*.., "+CA)],
 ["StoreLayer::triple_additions[_s,_sp,_p,_o], triple_removals[_s,_sp,_p,_o], triple_addition_exists, triple_removal_exists, triple_layer_addition_count, triple_layer_removal_count"])

p("C06","Rollups are invisible to readers",
 "Rolling up a layer completely, up to an ancestor, or imprecisely up to an ancestor succeeds for every layer and every strict ancestor of it, and changes nothing observable about that layer or any layer of the store: same name, parent and history, same triples under every query, same ids, same per-layer changes. This also holds for rollups repeated, nested, overlapping, or performed on layers whose ancestors are already rolled up or already loaded.",
 ["histories","inputs"],"all sequences of rollup, rollup_upto and imprecise_rollup_upto on all layers of a stack, interleaved with loads, evictions and new children",
 "Tests roll a fixed stack up once, sometimes twice; the composition of overlapping rollups with cached and uncached ancestors is a large space they do not enter.",
 [SL,DE,CA,"src/layer/internal/rollup.rs",IM,AR,DI],
 [("rollup pointer","the layer loaded in place of the original","rollup.hex / "+AR+" get_rollup"),("rollup layer","delta over the rollup's parent with id maps",DE)],
 [("load substitutes the rollup and stops at its parent",SL+" get_layer_with_cache"),("delta of a layer range",DE),("cache invalidation on registration",CA+" register_rollup")],
 ["StoreLayer::rollup, rollup_upto, imprecise_rollup_upto, then every read of C01-C05"])

p("C07","Squashing preserves content and rewrites only history",
 "Squashing a layer yields a new layer without parent holding exactly the same triples; squashing up to a strict ancestor yields a new layer whose parent is that ancestor, holding exactly the same triples, and whose own change is exactly the difference between the two. The source layer and its history are untouched and the result behaves like any other layer (can be extended, squashed, rolled up).",
 ["histories","inputs"],"all layer stacks, rolled up or not, and all ancestors",
 "Tests squash fixed three-layer stacks.",
 [SL,ST,DE,IM],
 [("new base/child layer","result of squash",SL)],
 [("squash copies the triples as strings",SL+" squash"),("squash_upto merges the deltas of the range",SL+" squash_upto, "+DE)],
 ["StoreLayer::squash, squash_upto"])

p("C08","Merging base layers yields exactly their union",
 "Merging any list of base layers (overlapping, disjoint, repeated or empty) yields one new base layer whose triples are exactly the union of theirs, with nodes, values and predicates merged by term, and which behaves like any other base layer. The inputs are unchanged.",
 ["inputs"],"all lists of base layers, all overlaps of their dictionaries and triples",
 "One or two fixed merges are tested.",
 ["src/layer/internal/base_merge.rs",SL,ST],
 [("merged dictionaries and id maps","src term ids to merged ids","src/layer/internal/base_merge.rs")],
 [("k-way merge of dictionaries and triples","src/layer/internal/base_merge.rs merge_base_layers")],
 ["Store::merge_base_layers"])

p("C09","Applying a delta or a diff has exactly its set meaning",
 "Applying a layer's delta to a builder requests exactly that layer's additions and removals by term, so that committing on any parent gives that parent minus the delta's removals plus its additions. Applying a diff to a builder makes the committed layer hold exactly the same triples as the given layer, whatever the builder's parent; neither affects the source layers.",
 ["inputs","histories"],"all pairs of (builder parent, other layer), related or not, rolled up or not, possibly combined with other pending changes",
 "Two fixed examples exist.",
 [ST],
 [("builder","pending additions/removals",ST)],
 [("parallel copy of additions and removals by term",ST+" apply_delta, apply_diff")],
 ["StoreLayerBuilder::apply_delta, apply_diff"])

p("C10","Head updates are atomic: no lost, torn or phantom updates",
 "Operations on one database by any number of concurrent clients take effect as if executed one at a time: every read of the head returns a (layer, version) pair that some successful update wrote together, each successful update replaces exactly the pair it was based on and raises the version by one, so versions count the successful updates since creation. An update reporting failure changed nothing, a versioned update succeeds only if the version still matches, and an unconditional one always ends up applied; on-disk stores guarantee this across processes too.",
 ["schedules","histories"],"all interleavings of create, read, set, clear, versioned and forced set by several clients, in one process or several on one directory",
 "Tests run label operations one after the other; no interleaving of two updates is exercised, least of all between processes.",
 [LA,ME,DI,LO,ST],
 [("label","(name, layer, version)",LA)],
 [("compare-and-set under an exclusive lock",DI+" set_label_option, "+ME+" set_label_option, "+LO),("retry loop",ST+" force_set_head")],
 ["LabelStore::{get_label,set_label,clear_label}, NamedGraph::{head,head_version,set_head,force_set_head,force_set_head_version}"])

p("C11","A normal head update only ever fast-forwards",
 "Setting a database's head without force succeeds only if the database had no head or its current head, at the moment of the update, is the new layer or one of its ancestors; otherwise it reports failure and changes nothing, so no concurrently published layer is ever dropped from the head's history. Ancestry is judged by the original history, regardless of rollups.",
 ["schedules","histories"],"all branchings of the layer graph, all interleavings of several clients setting the head, all rollup states",
 "Tests set the head on a linear history from a single client.",
 [ST,SL,LA],
 [("head","layer a label points at",LA)],
 [("ancestry check then compare-and-set on the very label read",ST+" set_head"),("ancestor walk over original parents",SL+" layer_is_ancestor_of")],
 ["NamedGraph::set_head, head"])

p("C12","Database names behave as a set with independent entries",
 "Creating a database succeeds exactly if no database of that name exists and gives it an empty head at version 0; opening succeeds exactly for existing names, the listing returns exactly the existing names, each once, and deleting removes exactly that name and reports whether it existed. Operations on one name never affect another, for any name the store accepts, and operations on a deleted database (other than deleting it again) fail with an error.",
 ["histories","inputs"],"all sequences of create/open/list/delete/set on several names (names sharing prefixes, with dots, spaces, non-ASCII), all label stores, reopened at any point",
 "Tests use one or two plain names and never list after deletes, clears or reopening.",
 [LA,DI,ME,ST],
 [("label files / map","one entry per database",DI+", "+ME)],
 [("create_new file / map entry",DI+" create_label, "+ME),("directory listing by suffix",DI+" labels")],
 ["Store::{create,open,delete,labels}, LabelStore::labels"])

p("C13","Everything persists across reopening and is the same on every backend",
 "Closing and reopening a directory or archive store at any point yields exactly the same databases, heads, versions and layers as before. The same sequence of operations yields the same observable results on the memory, directory and archive stores (with and without archive cache), through the asynchronous and the synchronous interface.",
 ["histories","configurations"],"all histories with a reopen inserted after any operation, all backends and cache sizes",
 "Tests mostly run on one backend per feature and only a few reopen a store.",
 [ST,"src/store/sync.rs",DI,AR,ME,CA],
 [("on-disk layer files, archives, rollup pointers, label files","durable state",DI+", "+AR)],
 [("finalize/sync of files at commit",SL+" finalize, "+AR+" finalize"),("header + slices format",AR+" ArchiveHeader")],
 ["open_memory_store, open_directory_store, open_archive_store, open_raw_archive_store, open_sync_*"])

p("C14","A crash never corrupts what was committed",
 "If the process is killed at any point, then on reopening the directory or archive store every layer whose commit had returned is intact, every database is readable, its head and version are those of the last completed update or of the one in progress, and the head's layer is intact. An interrupted commit, rollup, squash or import leaves all previously committed layers unchanged and readable, and the interrupted operation can be repeated.",
 ["crash_points"],"every prefix of the file-system operations issued by each operation of a history, including partially done writes",
 "Tests never stop an operation half way.",
 [DI,AR,SL,LO],
 [("label file, layer files, archive file, rollup pointer","durable state",DI+", "+AR)],
 [("layers are written before the label moves",ST+" commit, set_head"),("rollup pointer is written after the rollup layer is finalized",SL+" rollup")],
 ["reopened store after a kill"])

p("C15","Export and import move layers faithfully",
 "Exporting layers and importing them into any store (of any backend, empty or already holding some of their ancestors) makes exactly the requested layers that are in the pack available there under the same names with the same parent, triples, ids and per-layer changes; whatever is not requested or not in the pack is not made available and nothing already present changes. The parent relation read from a pack equals that of the exported layers.",
 ["inputs","histories"],"all layer graphs, all exported subsets, all requested subsets, all backend pairs, before and after rollups",
 "One fixed two-store example per backend is tested.",
 [PK,SL,AR,DI,ME],
 [("pack","tar.gz of layer directories",PK)],
 [("tar writing/reading with layer selection",PK+" export_layers, import_layers, pack_layer_parents")],
 ["Store::export_layers, import_layers, pack_layer_parents"])

p("C16","The archive cache is transparent, bounded and safe under concurrency",
 "Reads through the archive cache return exactly the bytes of the underlying archive, for whole layers and for single structures, whatever mix of concurrent reads, stores, failures and evictions precedes; a failed read is reported to those waiting for it and is not remembered, and a read abandoned half way leaves nothing behind. The total size of the layers held in the cache never exceeds the configured limit, and a layer too large for it is served without being cached.",
 ["schedules","histories","fault_sequences","configurations"],"all interleavings of lookups and stores of several layers with origin failures, all cache limits including zero",
 "The cache is only exercised implicitly with a cache far larger than the data, by one task at a time.",
 [AR],
 [("cache","layer id -> Resolving | Resolved(bytes)",AR+" LruArchiveBackend"),("current/limit","bytes held / allowed",AR)],
 [("first reader resolves, others wait on its barrier",AR+" get_layer_bytes"),("evict least recently used until the new entry fits",AR+" ensure_enough_cache_space")],
 ["LruArchiveBackend as ArchiveBackend/ArchiveMetadataBackend over an instrumented origin"])

p("C17","Concurrent work on layers is isolated",
 "Any number of tasks may build, commit, load, query, roll up, squash, merge, export and import layers of one store at the same time: each completes without deadlock or spurious error with the result it would have had alone, and builders on the same parent produce independent sibling layers. A layer loaded by several tasks at once, or while it is being rolled up or evicted, always shows its one fixed content.",
 ["schedules"],"all interleavings of builders, commits, loads, drops, rollups and squashes by several tasks sharing one store",
 "All tests are single-task.",
 [CA,SL,ME,AR,ST],
 [("layer cache","weak references to loaded layers",CA),("construction map","archives being built",AR),("shared maps","memory store contents",ME)],
 [("locks around cache and construction maps",CA+", "+AR+", "+ME),("unique random layer names",SL+" create_directory")],
 ["Store shared by tasks on a multi-threaded runtime"])

p("C18","Layer history and enumeration are exact",
 "Each layer reports as parent exactly the layer it was built on (none for base, squashed and merged layers), and as its stack of names exactly the chain from its base layer to itself, before and after any rollup or reload. Looking a layer up by name finds exactly the layers committed to or imported into the store, and the store's enumeration of layers lists every one of them, on every backend.",
 ["histories","configurations"],"all layer graphs, all backends, all names (committed, never built, built but not committed, abandoned)",
 "Chains of two or three layers are tested on some backends; enumeration is tested only for layouts that do not occur in practice.",
 [SL,ST,DI,AR,ME,CA],
 [("parent file","name of the original parent",SL)],
 [("walk of parent files",SL+" retrieve_layer_stack_names, layer_is_ancestor_of"),("directory enumeration",DI+" directories, "+AR+" get_layer_names, "+ME)],
 ["StoreLayer::parent, retrieve_layer_stack_names, Layer::parent_name, Store::get_layer_from_id, LayerStore::layers, layer_is_ancestor_of"])

p("C19","A failing file operation fails that operation, not the store",
 "If changing a file fails during an operation (out of space, I/O error), the operation reports an error or has completely succeeded; it never panics or hangs. The same process then finds every database and every committed layer as they were before, or, for what the operation was about, as they are after it, and finds the same when the store is reopened. Repeating the operation when files can be changed again does what it would have done the first time. Nothing kept in memory (archives being built, cached labels, cached layers) may say otherwise than the files.",
 ["fault_points","histories"],"every file-changing call of every operation of a history failing once, or from there on until the operation has returned",
 "Tests run on files that never fail.",
 [DI,AR,SL,PK,ME],
 [("construction map, cached labels, archive cache, loaded layers","what memory says of the files",AR+", "+DI),("label file, layer files, archive file, rollup pointer","durable state",DI+", "+AR)],
 [("a map is changed after the file is",DI+" CachedDirectoryLabelStore"),("finalize takes the layer out of the construction map",AR+" finalize"),("import finishes layers one by one",PK)],
 ["Store of a process whose file-changing system calls fail, then reopened"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
