CONSTANTS
 Triples <- T3
 MaxLayers = 3
 MaxBuilders = 0
 Names = {}
 Stores = {0}
 MaxVersion = 0
 Features = {"build","squash","merge"}
SPECIFICATION Spec
INVARIANTS HistoryWellFounded ContentIsFold SquashPreserves MergeIsUnion DiffLaw DeltaLaw CancelLaw
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
