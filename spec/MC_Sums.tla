-------------------------------- MODULE MC_Sums --------------------------------
(* All expressions of a few steps over a handful of leaves with known values.  *)
EXTENDS Sums, Num, FiniteSets, Json
CONSTANTS MaxSteps, Ops
VARIABLES hist, tally          \* tally: id -> (leaf -> how often), kept by its own rule
vars == <<nodes, hist, tally>>

Leaves == "e1" :> Leaf("eps", FALSE, "e1") @@ "e2" :> Leaf("eps", FALSE, "e2") @@ "te" :> Leaf("eps", TRUE, "te")
       @@ "i1" :> Leaf("index", FALSE, "i1") @@ "i2" :> Leaf("index", FALSE, "i2") @@ "ti" :> Leaf("index", TRUE, "ti")
       @@ "fe" :> Leaf("eps", FALSE, "fe") @@ "fi" :> Leaf("index", FALSE, "fi")
       @@ "two" :> Leaf("number", FALSE, "two") @@ "half" :> Leaf("number", FALSE, "half")
V == "e1" :> "4|1" @@ "e2" :> "9" @@ "te" :> "-3|2" @@ "i1" :> "1.5" @@ "i2" :> "2|3" @@ "ti" :> "0.25|1" @@ "fe" :> "7" @@ "fi" :> "11|13"
  @@ "two" :> "2" @@ "half" :> "0.5"
RECURSIVE ValueOf(_), TermSum(_)
TermSum(t) == IF t = <<>> THEN N(0)
  ELSE (IF t[1][1] = "leaf" THEN N(V[t[1][2]]) ELSE NSqrt(ValueOf(t[1][2]))) (+) TermSum(Tail(t))
ValueOf(x) == TermSum(x.terms)

Names == DOMAIN nodes
Used == IF MaxSteps > 3 THEN Names ELSE {"e1", "te", "i1", "ti", "two"} \cup {n \in Names : n \notin DOMAIN Leaves}
New == "n" \o ToString(Len(hist))
One(x) == [k \in DOMAIN Leaves |-> IF k = x THEN 1 ELSE 0]
Both(f, g) == [k \in DOMAIN Leaves |-> f[k] + g[k]]
Roots(id) == \E i \in 1..Len(nodes[id].terms) : nodes[id].terms[i][1] = "root"
Init == nodes = Leaves /\ hist = <<>> /\ tally = [x \in DOMAIN Leaves |-> One(x)]
AddStep == \E a, b \in Used :
  /\ ~(nodes[a].fam = "number" /\ nodes[b].fam = "number")
  /\ Add(New, a, b)
  /\ hist' = Append(hist, [op |-> "add", id |-> New, args |-> <<a, b>>])
  /\ tally' = IF OkAdd(nodes[a], nodes[b]) THEN (New :> Both(tally[a], tally[b])) @@ tally ELSE tally
SumStep == "sum" \in Ops /\ \E a, b, c \in Used : \E k \in {"sum", "ctor"} :
  /\ \E x \in {a, b, c} : nodes[x].fam # "number"
  /\ k = "sum" => Cardinality({i \in 1..3 : nodes[<<a, b, c>>[i]].fam = "number"}) = 0
  /\ k = "sum" => OkAdd(nodes[a], nodes[b]) /\ OkAdd(nodes[b], nodes[c]) /\ OkAdd(nodes[a], nodes[c])
  /\ k = "ctor" => nodes[a].fam # "number"
  /\ SumOf(New, <<a, b, c>>)
  /\ hist' = Append(hist, [op |-> k, id |-> New, args |-> <<a, b, c>>])
  /\ tally' = IF OkSum(<<nodes[a], nodes[b], nodes[c]>>) THEN (New :> Both(tally[a], Both(tally[b], tally[c]))) @@ tally ELSE tally
IndexStep == "index" \in Ops /\ \E a \in Used :
  /\ nodes[a].fam = "eps"
  /\ AsIndex(New, a)
  /\ hist' = Append(hist, [op |-> "index", id |-> New, args |-> <<a>>])
  /\ tally' = (New :> [k \in DOMAIN Leaves |-> 0]) @@ tally
Next == Len(hist) < MaxSteps /\ (AddStep \/ SumStep \/ IndexStep)
Spec == Init /\ [][Next]_vars

(* the value is the sum over the leaves, each as often as it occurs *)
RECURSIVE Weighted(_, _)
Weighted(S, f) == IF S = {} THEN N(0) ELSE LET x == CHOOSE y \in S : TRUE IN (f[x] (.) N(V[x])) (+) Weighted(S \ {x}, f)
Counted == \A id \in Names : ~Roots(id) => NEq(ValueOf(nodes[id]), Weighted(DOMAIN Leaves, tally[id]))
OneFamily == \A id \in Names : \A i \in 1..Len(nodes[id].terms) :
  LET t == nodes[id].terms[i] IN
  t[1] = "leaf" => Leaves[t[2]].fam \in {"number", nodes[id].fam}
(* sums commute, and association does not matter *)
Algebra == \A a, b \in Used : OkAdd(nodes[a], nodes[b]) =>
  /\ OkAdd(nodes[b], nodes[a])
  /\ Close(ValueOf(Plus(nodes[a], nodes[b])), ValueOf(Plus(nodes[b], nodes[a])), "1e-50", 0)
OperandsKept == [][\A id \in Names : nodes'[id] = nodes[id]]_vars
Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))
(* for simulation: one random choice of every kind *)
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
GenNext == Len(hist) < MaxSteps /\
  ( \/ \E a \in Pick(Names \ {"two", "half"}) : \E b \in Pick(Names) : \E sw \in BOOLEAN :
         LET p == IF sw THEN <<a, b>> ELSE <<b, a>> IN
         Add(New, p[1], p[2]) /\ hist' = Append(hist, [op |-> "add", id |-> New, args |-> p]) /\ UNCHANGED tally
    \/ \E a \in Pick({n \in Names : nodes[n].fam = "eps"}) : AsIndex(New, a) /\ hist' = Append(hist, [op |-> "index", id |-> New, args |-> <<a>>]) /\ UNCHANGED tally
    \/ \E a \in Pick(Names \ {"two", "half"}) : \E b \in Pick({n \in Names : nodes[n].fam \in {"number", nodes[a].fam}}) : \E c \in Pick({n \in Names : nodes[n].fam \in {"number", nodes[a].fam}} \cup (IF RandomElement(1..4) = 1 THEN Names ELSE {})) :
         SumOf(New, <<a, b, c>>) /\ hist' = Append(hist, [op |-> "ctor", id |-> New, args |-> <<a, b, c>>]) /\ UNCHANGED tally
    \/ \E a \in Pick({n \in Names : nodes[n].fam # "number" /\ ~nodes[n].table}) : \E b \in Pick({n \in Names : nodes[n].fam = nodes[a].fam /\ ~nodes[n].table}) : \E c \in Pick({n \in Names : nodes[n].fam = nodes[a].fam /\ ~nodes[n].table}) :
         SumOf(New, <<a, b, c>>) /\ hist' = Append(hist, [op |-> "sum", id |-> New, args |-> <<a, b, c>>]) /\ UNCHANGED tally )
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
