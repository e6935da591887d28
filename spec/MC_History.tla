------------------------------ MODULE MC_History ------------------------------
EXTENDS History, Json
CONSTANTS MaxSteps, Values, Maxima, NameSet
VARIABLES st, ids, next, undo, hist
vars == <<st, ids, next, undo, hist>>
(* ids: one number per snapshot, in step with st.hist; undo: states before the tracked changes that undoing would go back to *)
Sorted == SelectSeq(<<"a", "b", "c">>, LAMBDA n : n \in NameSet)
Bounds == { <<"-inf", "inf">>, <<"0", "inf">>, <<"1", "3">> }
P(n, v, b, y) == [name |-> n, val |-> N(v), min |-> b[1], max |-> b[2], vary |-> y, of |-> ""]
Tied(n, m) == [name |-> n, val |-> N(0), min |-> "-inf", max |-> "inf", vary |-> FALSE, of |-> m]
Init == st = New /\ ids = <<>> /\ next = 1 /\ undo = <<>> /\ hist = <<>>
Log(h) == Len(hist) < MaxSteps /\ hist' = Append(hist, h)
Last(n, s) == SubSeq(s, IF Len(s) > n THEN Len(s) - n + 1 ELSE 1, Len(s))
Fresh == ids' = Last(Len(st'.hist), Append(ids, next)) /\ next' = next + 1
Tracked == Fresh /\ undo' = Last(st.max, Append(undo, st.cur))
Untracked == UNCHANGED <<ids, next>> /\ undo' = <<>>
(* free parameters, whose value may be set *)
Free == {n \in Names(st.cur) : Par(st.cur, n).of = ""}
DoAdd(t, n, v, b, y) == (IF n \in Names(st.cur) THEN Par(st.cur, n).of = "" ELSE TRUE) /\ st' = (IF t THEN TrackedAdd(st, P(n, v, b, y)) ELSE Add(st, P(n, v, b, y))) /\ (IF t THEN Tracked ELSE Untracked)
                      /\ Log(<<IF t THEN "tadd" ELSE "add", n, v, b, y>>)
DoTie(t) == "a" \in Names(st.cur) /\ "c" \notin Names(st.cur) /\ st' = (IF t THEN TrackedAdd(st, Tied("c", "a")) ELSE Add(st, Tied("c", "a"))) /\ (IF t THEN Tracked ELSE Untracked)
            /\ Log(<<IF t THEN "ttie" ELSE "tie", "c", "a">>)
DoValue(t, n, v) == st' = (IF t THEN UpdateValue(st, n, v) ELSE SetValue(st, n, v)) /\ (IF t THEN Tracked ELSE Untracked) /\ Log(<<IF t THEN "update" ELSE "value", n, v>>)
DoVary(n, b) == st' = SetVary(st, n, b) /\ Untracked /\ Log(<<"vary", n, b>>)
DoBounds(n, b) == Within(Par(st.cur, n).val, b[1], b[2]) /\ st' = SetBounds(st, n, b[1], b[2]) /\ Untracked /\ Log(<<"bounds", n, b>>)
(* parameters from outside; a later change of that object changes nothing here *)
DoParams(Q, w) == st' = UpdateParams(st, Q) /\ Tracked /\ Log(<<"params", w>>)
DoSpoil(w) == UNCHANGED <<st, ids, next, undo>> /\ Log(<<"spoil", w>>)
DoCommit == st' = Commit(st) /\ Fresh /\ undo' = (IF undo = <<>> THEN <<>> ELSE Last(st.max, Append(undo, st.cur))) /\ Log(<<"commit">>)
DoRevert(k) == InRange(st, k) /\ st' = Revert(st, k) /\ Untracked /\ Log(<<"revert", k>>)
DoPop == st' = Pop(st) /\ ids' = Last(Len(st'.hist), SubSeq(ids, 1, Len(st'.hist))) /\ UNCHANGED next /\ undo' = (IF undo = <<>> THEN <<>> ELSE SubSeq(undo, 1, Len(undo) - 1)) /\ Log(<<"pop">>)
DoClear == st' = Clear(st) /\ ids' = <<>> /\ UNCHANGED next /\ undo' = <<>> /\ Log(<<"clear">>)
DoMax(m) == st' = SetMax(st, m) /\ ids' = Last(m, ids) /\ UNCHANGED next /\ undo' = Last(m, undo) /\ Log(<<"max", m>>)
Outside == { <<P(Sorted[1], 2, <<"0", "inf">>, FALSE)>>, <<P(Sorted[Len(Sorted)], 1, <<"1", "3">>, TRUE)>> }
Next ==
  \/ \E t \in BOOLEAN, n \in NameSet, v \in Values, b \in Bounds, y \in BOOLEAN : (y \/ v = 1) /\ DoAdd(t, n, v, b, y)
  \/ \E t \in BOOLEAN : DoTie(t)
  \/ \E t \in BOOLEAN, n \in Free, v \in Values : DoValue(t, n, v)
  \/ \E n \in Free, b \in BOOLEAN : DoVary(n, b)
  \/ \E n \in Free, b \in Bounds : DoBounds(n, b)
  \/ \E Q \in Outside : Free = Names(st.cur) /\ DoParams(Q, <<>>)
  \/ DoCommit \/ DoPop \/ DoClear
  \/ \E k \in {-2, -1, 0, 1} : DoRevert(k)
  \/ \E m \in Maxima : DoMax(m)
Spec == Init /\ [][Next]_vars
View == <<st, undo, Len(hist)>>
(* the number of different values per step is small, so histories are short *)
Bounded == Len(st.hist) <= st.max /\ Len(ids) = Len(st.hist)
Ordered == \A i \in 1..Len(ids) - 1 : ids[i] < ids[i + 1]
UniqueNames == \A i, j \in 1..Len(st.cur) : st.cur[i].name = st.cur[j].name => i = j
(* undoing every tracked change since the last untracked one leads back through the states before them, newest first *)
Undoes == LET k == Len(undo) IN k <= Len(st.hist) /\ \A i \in 1..k : st.hist[Len(st.hist) - k + i] = undo[i]
Legal == \A i \in 1..Len(st.cur) : Within(st.cur[i].val, st.cur[i].min, st.cur[i].max)
(* a snapshot is never changed: the one with a given number stays what it was *)
Immutable == [][\A i \in 1..Len(ids) : \A j \in 1..Len(ids') : ids[i] = ids'[j] => st.hist[i] = st'.hist[j]]_vars
SnapshotIsState == [][\A j \in 1..Len(ids') : ids'[j] = next => st'.hist[j] = st.cur]_vars

Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))
Pick(S) == {RandomElement(S)}
AllNames == {"a", "b", "c"}
GenNext == Len(hist) < MaxSteps /\ \E c \in Pick(1..20) : \E t \in Pick(BOOLEAN) : \E y \in Pick(BOOLEAN) : \E v \in Pick(Values) : \E b \in Pick(Bounds) :
  LET free == Free IN
  IF c <= 3 \/ free = {} THEN \E n \in Pick({"a", "b", "d"}) : DoAdd(t, n, v, b, y)
  ELSE IF c = 4 /\ "a" \in Names(st.cur) /\ "c" \notin Names(st.cur) THEN DoTie(t)
  ELSE IF c <= 6 THEN \E n \in Pick(free) : DoValue(TRUE, n, v)
  ELSE IF c <= 8 THEN \E n \in Pick(free) : DoValue(FALSE, n, v)
  ELSE IF c = 9 THEN \E n \in Pick(free) : DoVary(n, y)
  ELSE IF c = 10 THEN \E n \in Pick(free) : IF Within(Par(st.cur, n).val, b[1], b[2]) THEN DoBounds(n, b) ELSE DoVary(n, y)
  ELSE IF c = 11 THEN \E n \in Pick({"a", "b", "e"}) : DoParams(<<P(n, v, <<"-inf", "inf">>, y)>> \o (IF t THEN <<P("f", v + 1, <<"0", "inf">>, TRUE)>> ELSE <<>>), <<n, v, y, t>>)
  ELSE IF c = 12 THEN \E w \in Pick({"given", "popped", "copy", "added"}) : DoSpoil(w)
  ELSE IF c <= 14 THEN DoCommit
  ELSE IF c <= 16 /\ st.hist # <<>> THEN \E k \in Pick((-Len(st.hist)..Len(st.hist) - 1)) : DoRevert(k)
  ELSE IF c <= 18 THEN DoPop
  ELSE IF c = 19 THEN \E m \in Pick(1..4) : DoMax(m)
  ELSE IF t /\ y THEN DoClear ELSE DoCommit
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
