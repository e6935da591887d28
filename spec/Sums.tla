--------------------------------- MODULE Sums ---------------------------------
(***************************************************************************)
(* Expressions over dispersions.  A node is                                *)
(*   fam   "eps" | "index" | "number"                                      *)
(*   table is a table itself                                               *)
(*   terms the leaves it adds up, in order, an operand used twice twice    *)
(* A term is <<"leaf", name>> or <<"root", node>>, a permittivity used as  *)
(* an index.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
VARIABLE nodes                 \* id -> node

Leaf(f, t, x) == [fam |-> f, table |-> t, terms |-> << <<"leaf", x>> >>]
Fam(a, b) == IF a.fam = "number" THEN b.fam ELSE a.fam
OkAdd(a, b) ==
  /\ a.fam = "number" \/ b.fam = "number" \/ a.fam = b.fam
  /\ ~(a.table /\ b.table)
Plus(a, b) == [fam |-> Fam(a, b), table |-> FALSE, terms |-> a.terms \o b.terms]
RECURSIVE All(_)
All(s) == IF s = <<>> THEN <<>> ELSE Head(s).terms \o All(Tail(s))
OkSum(s) == \A i, j \in 1..Len(s) : s[i].fam = s[j].fam \/ s[i].fam = "number" \/ s[j].fam = "number"
FamOf(s) == LET f == {s[i].fam : i \in 1..Len(s)} \ {"number"} IN CHOOSE x \in f : TRUE
Rooted(a) == [fam |-> "index", table |-> FALSE, terms |-> << <<"root", a>> >>]

Put(id, x) == nodes' = (id :> x) @@ nodes
Add(id, a, b) == IF OkAdd(nodes[a], nodes[b]) THEN Put(id, Plus(nodes[a], nodes[b])) ELSE UNCHANGED nodes
\* the constructor of sums, and sum of a list
SumOf(id, s) == LET x == [i \in 1..Len(s) |-> nodes[s[i]]] IN
  IF OkSum(x) THEN Put(id, [fam |-> FamOf(x), table |-> FALSE, terms |-> All(x)]) ELSE UNCHANGED nodes
AsIndex(id, a) == Put(id, Rooted(nodes[a]))
=============================================================================
