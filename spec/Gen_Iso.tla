------------------------------- MODULE Gen_Iso -------------------------------
(* Behaviours of MC_IsoStack, written out for the driver to replay. *)
EXTENDS MC_IsoStack, Json
Emit == \A x \in {1, 2, 5} :
  (depth = MaxLayers \/ depth = 0) => PrintT("@@BEH|" \o ToJson([layers |-> hist, exit |-> x]))
=============================================================================
