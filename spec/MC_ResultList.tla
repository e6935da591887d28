---------------------------- MODULE MC_ResultList ----------------------------
(* Append histories of a list of results.                                  *)
EXTENDS ResultList, Json
CONSTANTS MaxSteps, Free
VARIABLES list, hist
vars == <<list, hist>>
Pool == << <<N(1), N(0), N("1/3")>>, <<N("-5/2"), Cx(1, 2), N(4)>>, <<N(7), N(7), Cx(0, "-1")>> >>
Values(s) == [i \in 1..Len(s) |-> Pool[s[i]]]
Log(h) == Len(hist) < MaxSteps /\ hist' = Append(hist, h)
Init == list = <<>> /\ hist = <<>>
Add(m) == list' = Append(list, m) /\ Log(<<"append", m>>)
Read(w) == list # <<>> /\ UNCHANGED list /\ Log(<<w>>)
Reads == {"list", "mean", "member", "remean", "copy", "pickle", "deepcopy", "keep"}
Next == (\E m \in 1..Len(Pool) : Add(m)) \/ (\E w \in {"list", "mean"} : Read(w))
Spec == Init /\ [][Next]_vars
View == <<list, Len(hist)>>

M(s) == Mean(Values(s))
Eq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], "1e-40", 0)
InOrder == \A i \in 1..Len(list), e \in 1..3 : NEq(Collected(Values(list))[3 * (i - 1) + e], Pool[list[i]][e])
Single == Len(list) = 1 => Eq(M(list), Pool[list[1]])
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Orderless == list # <<>> => Eq(M(list), M(Rev(list)))
Doubled == list # <<>> => Eq(M(list), M(list \o list))
Update == Len(list) > 1 => LET n == Len(list) old == M(SubSeq(list, 1, n - 1)) IN
  Eq(M(list), [i \in 1..3 |-> ((old[i] (.) (n - 1)) (+) Pool[list[n]][i]) (/) n])
Between == list # <<>> => \A e \in 1..3 : \E i, j \in 1..Len(list) :
  NLeq(Re(Pool[list[i]][e]), Re(M(list)[e]) (+) "1e-40") /\ NLeq(Re(M(list)[e]), Re(Pool[list[j]][e]) (+) "1e-40")

Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))
Pick(S) == {RandomElement(S)}
GenNext == Len(hist) < MaxSteps /\ \E c \in Pick(1..3) :
  IF c = 1 \/ list = <<>> THEN \E m \in Pick(1..Len(Pool)) : Add(m) ELSE \E w \in Pick(Reads) : Read(w)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
