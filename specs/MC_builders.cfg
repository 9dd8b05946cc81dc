CONSTANTS
 Triples <- T1
 MaxLayers = 3
 MaxBuilders = 3
 Names = {}
 Stores = {0}
 MaxVersion = 0
 Features = {"builders","squash"}
SPECIFICATION Spec
INVARIANTS HistoryWellFounded ContentIsFold SquashPreserves
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
