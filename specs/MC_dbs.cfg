CONSTANTS
 Triples <- T1
 MaxLayers = 3
 MaxBuilders = 0
 Names = {"m","n"}
 Stores = {0}
 MaxVersion = 2
 Features = {"build","dbs"}
SPECIFICATION Spec
INVARIANTS HistoryWellFounded HeadsPresent
PROPERTIES Immutable VersionsCount NamesIndependent FastForwardOnly
CHECK_DEADLOCK FALSE
