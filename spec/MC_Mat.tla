-------------------------------- MODULE MC_Mat --------------------------------
(* The native matrix operators agree with their definitions, the exponential  *)
(* and the sign function with their laws, on random small integer matrices.   *)
EXTENDS Mat, TLC, FiniteSets
CONSTANT Entries
VARIABLES A, B
Small == {<< <<a, "1|1", b>>, <<b, 2, "-1/3">>, <<0, a, "5|2">> >> : a \in Entries, b \in Entries}
Init == A \in Small /\ B \in Small
Next == UNCHANGED <<A, B>>
Native == /\ MEq(MMul(A, B), MMulDef(MNum(A), MNum(B)))
          /\ MEq(MAdd(A, B), MAddDef(MNum(A), MNum(B)))
          /\ MEq(MScale("2|3", A), MScaleDef("2|3", MNum(A)))
          /\ LET V == MInv(A) IN IsNum(V[1][1]) => MEq(MMul(A, V), MId(3))
ExpLaws == /\ MClose(MMul(MExp(MNum(A)), MExp(MScale(-1, A))), MId(3), "1e-40", "0")
           /\ MClose(MMul(MExp(MNum(A)), MExp(MNum(A))), MExp(MScale(2, A)), "1e-30", "1e-40")
SignLaw == LET S == MSign(MAdd(A, MScale("7|1", MId(3)))) IN MClose(MMul(S, S), MId(3), "1e-40", "0")
=============================================================================
