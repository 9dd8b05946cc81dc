CONSTANTS
 Triples <- T2
 MaxLayers = 3
 MaxBuilders = 0
 Names = {}
 Stores = {0}
 MaxVersion = 0
 Features = {"build","dict"}
SPECIFICATION Spec
INVARIANTS HistoryWellFounded ContentIsFold DictsAgree
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
