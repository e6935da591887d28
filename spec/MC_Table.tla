------------------------------- MODULE MC_Table -------------------------------
(***************************************************************************)
(* A table is written row by row, in any order; after every row it can be  *)
(* asked.  What it answers does not depend on the order of writing.        *)
(***************************************************************************)
EXTENDS Dispersion, FiniteSets, Json
CONSTANT MaxRows

Rows == { <<"200", "1">>, <<"310", "3|1">>, <<"420.5", "-4|2">>, <<"777", "2|0.25">>, <<"778", "5">>, <<"1600", "0.5|3">> }
Queries == {"200", "255", "310", "420.5", "500", "777", "777.5", "778", "1600", "1600.001", "199.99"}

VARIABLE rows
Init == rows = <<>>
Write(r) == /\ \A i \in 1..Len(rows) : rows[i] # r
            /\ rows' = Append(rows, r)
Next == Len(rows) < MaxRows /\ \E r \in Rows : Write(r)
Spec == Init /\ [][Next]_rows

X == [i \in 1..Len(rows) |-> rows[i][1]]
Y == [i \in 1..Len(rows) |-> rows[i][2]]
Ask(w) == Lookup(X, Y, w)
Written == {rows[i] : i \in 1..Len(rows)}

Nodes == \A r \in Written : NEq(Ask(r[1]), r[2])
(* the domain is the interval spanned by the rows *)
Domain == rows # <<>> =>
  LET lo == CHOOSE r \in Written : \A s \in Written : NLeq(r[1], s[1])
      hi == CHOOSE r \in Written : \A s \in Written : NLeq(s[1], r[1])
  IN \A w \in Queries : Covers(X, w) <=> (NLeq(lo[1], w) /\ NLeq(w, hi[1]))
(* independent statement: the first value plus the rise over the part of every segment that was passed; built
   from the set of rows, it cannot depend on their order *)
Succ(r) == LET above == {s \in Written : NLt(r[1], s[1])} IN CHOOSE s \in above : \A t \in above : NLeq(s[1], t[1])
RECURSIVE Rise(_, _)
Rise(S, w) ==
  IF S = {} THEN N(0)
  ELSE LET r == CHOOSE z \in S : TRUE
           s == Succ(r)
           part == NMax(0, NMin(N(w) (-) r[1], N(s[1]) (-) r[1]))
       IN ((part (/) (N(s[1]) (-) r[1])) (.) (N(s[2]) (-) r[2])) (+) Rise(S \ {r}, w)
Broken == Written # {} =>
  LET lo == CHOOSE r \in Written : \A s \in Written : NLeq(r[1], s[1])
      hi == CHOOSE r \in Written : \A s \in Written : NLeq(s[1], r[1])
  IN \A w \in Queries : Covers(X, w) => NEq(Ask(w), N(lo[2]) (+) Rise(Written \ {hi}, w))
(* real and imaginary part stay between those of the neighbouring nodes *)
Between == rows # <<>> => \A w \in Queries : Covers(X, w) =>
  LET a == Y[Below(X, w)] b == Y[Above(X, w)] v == Ask(w)
      In(f, g, h) == NLeq(NMin(f, h), g) /\ NLeq(g, NMax(f, h))
  IN In(Re(a), Re(v), Re(b)) /\ In(Im(a), Im(v), Im(b))
Emit == Len(rows) > 0 => PrintT("@@BEH|" \o ToJson(rows))
=============================================================================
