------------------------------ MODULE GenStack ------------------------------
(* A history for each state Stack reaches: every combination of rollups, held  *)
(* layers and cached layers there is in its bounds, the shortest way to get    *)
(* there.                                                                      *)
EXTENDS Stack, Json
Emit == PrintT("SCRIPT " \o ToJson([ops |-> hist]))
=============================================================================
