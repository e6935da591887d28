-------------------------------- MODULE Tr_Sums --------------------------------
(***************************************************************************)
(* Recorded expressions over real dispersions against Sums.                *)
(*   case;  leaf id fam table kind d      an operand and its description        *)
(*   add | sum | ctor | index  id args err                                 *)
(*   print id err said     how often printing it names each kind of model  *)
(*   ask id what w err v                                                   *)
(***************************************************************************)
EXTENDS Sums, TraceBase, FiniteSets
VARIABLE desc, kind
D == INSTANCE Dispersion
vars == <<nodes, desc, kind, l>>
Init == l = 1 /\ nodes = <<>> /\ desc = <<>> /\ kind = <<>>
Fresh == Is("case") /\ nodes' = <<>> /\ desc' = <<>> /\ kind' = <<>>
LeafEv == Is("leaf") /\ Put(Ev.id, Leaf(Ev.fam, Ev.table, Ev.id)) /\ desc' = (Ev.id :> Ev.d) @@ desc /\ kind' = (Ev.id :> Ev.kind) @@ kind

Judge(clause, ok) == Chk(clause \o (IF ok THEN "-raises" ELSE "-accepted"), ok = (Ev.err = ""), Ev.err \o " " \o ToString(Ev.args))
AddEv == Is("add") /\ Judge("add", OkAdd(nodes[Ev.args[1]], nodes[Ev.args[2]])) /\ Add(Ev.id, Ev.args[1], Ev.args[2]) /\ UNCHANGED <<desc, kind>>
Operands == [i \in 1..Len(Ev.args) |-> nodes[Ev.args[i]]]
SumEv == Is("sum") /\ Judge("sum", OkSum(Operands)) /\ SumOf(Ev.id, Ev.args) /\ UNCHANGED <<desc, kind>>
CtorEv == Is("ctor") /\ Judge("constructor", OkSum(Operands)) /\ SumOf(Ev.id, Ev.args) /\ UNCHANGED <<desc, kind>>
IndexEv == Is("index") /\ Judge("as_index", TRUE) /\ AsIndex(Ev.id, Ev.args[1]) /\ UNCHANGED <<desc, kind>>

LeafValue(x, w) == IF desc[x].cls = "Number" THEN N(desc[x].v) ELSE D!Value(desc[x], w)
RECURSIVE NodeValue(_, _)
NodeValue(x, w) == NSumSeq([i \in 1..Len(x.terms) |->
  LET t == x.terms[i] IN IF t[1] = "leaf" THEN LeafValue(t[2], w) ELSE NSqrt(NodeValue(t[2], w))])
AskEv == /\ Is("ask")
         /\ LET x == nodes[Ev.id] IN
            IF Ev.err # "" THEN Chk("evaluation-raises", FALSE, Ev.err)
            ELSE \A i \in 1..Len(Ev.w) :
              LET v == NodeValue(x, N(Ev.w[i]))
                  want == IF Ev.what = "eps" THEN (IF x.fam = "index" THEN Sq(v) ELSE v) ELSE (IF x.fam = "index" THEN v ELSE NSqrt(v))
              IN IF ~IsNum(want) THEN TRUE
                 ELSE Chk(x.fam \o "-" \o Ev.what, Close(Ev.v[i], want, "1e-6", "1e-7"), ToString(Ev.id) \o " = " \o ToString(Len(x.terms)) \o " terms at " \o Show(Ev.w[i]) \o " observed " \o Show(Ev.v[i]) \o ", specified " \o Show(want))
         /\ UNCHANGED <<nodes, desc, kind>>
\* a printed sum names each of its terms, an operand used twice twice
Printed(f, x) == IF kind[x] # "Number" THEN kind[x] ELSE IF f = "index" THEN "ConstantRefractiveIndex" ELSE "EpsilonInf"
PrintEv == /\ Is("print")
           /\ LET x == nodes[Ev.id] IN
              IF Ev.err # "" THEN Chk("printing-raises", FALSE, Ev.err)
              ELSE IF \E i \in 1..Len(x.terms) : x.terms[i][1] = "root" THEN TRUE   \* a view has no name of its own
              ELSE LET names == [i \in 1..Len(x.terms) |-> Printed(x.fam, x.terms[i][2])] IN
                \A c \in DOMAIN Ev.said : LET n == Cardinality({i \in 1..Len(names) : names[i] = c}) IN
                  \* Python's sum starts from a zero, itself a constant
                  Chk("printed-terms", IF c \in {"EpsilonInf", "ConstantRefractiveIndex"} THEN Ev.said[c] >= n ELSE Ev.said[c] = n, c \o " of " \o ToString(names))
           /\ UNCHANGED <<nodes, desc, kind>>
Next == Fresh \/ LeafEv \/ AddEv \/ SumEv \/ CtorEv \/ IndexEv \/ AskEv \/ PrintEv
Spec == Init /\ [][Next]_vars
=============================================================================
