------------------------------ MODULE ResultList ------------------------------
(***************************************************************************)
(* A list of results.  A member is known by the values it gives for each   *)
(* attribute, one number per element; asking the list for an attribute     *)
(* gives the values of its members one after the other, asking its mean    *)
(* gives the arithmetic mean of each element over the members.             *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC

RECURSIVE Concat(_)
Concat(vs) == IF vs = <<>> THEN <<>> ELSE Head(vs) \o Concat(Tail(vs))
Collected(values) == Concat(values)
Mean(values) == [i \in 1..Len(values[1]) |-> NSumSeq([m \in 1..Len(values) |-> values[m][i]]) (/) Len(values)]
=============================================================================
