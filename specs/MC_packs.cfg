CONSTANTS
 Triples <- T1
 MaxLayers = 3
 MaxBuilders = 0
 Names = {}
 Stores = {0,1}
 MaxVersion = 0
 Features = {"build","packs"}
SPECIFICATION Spec
INVARIANTS HistoryWellFounded ContentIsFold
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
