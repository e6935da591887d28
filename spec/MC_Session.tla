------------------------------ MODULE MC_Session ------------------------------
(* The session as it is built: boxes, plot and parameters are separate, and   *)
(* every action has to bring them back in step.                               *)
EXTENDS Session, Json
CONSTANTS MaxSteps, Values, Limit, Tracks
VARIABLES st, shown, ticks, drawn, trail, mark, hist
vars == <<st, shown, ticks, drawn, trail, mark, hist>>
Free == << <<"-inf", "inf">>, <<"1", "2">> >>
NoTies == <<0, 0>>
Displays == {"Psi/Delta", "Rho", "Pseudo Diel.", "Residual"}
Model(par) == par.val
Init == \E t \in Tracks : /\ st = Begin([val |-> <<N(1), N(2)>>, vary |-> <<TRUE, TRUE>>], t, "Psi/Delta", Limit)
  /\ shown = st.par.val /\ ticks = st.par.vary /\ drawn = <<st.display, Model(st.par)>> /\ trail = <<>> /\ mark = <<>> /\ hist = <<>>
(* boxes are refreshed without that counting as a move, then the plot is redrawn *)
InStep == shown' = st'.par.val /\ ticks' = st'.par.vary /\ drawn' = <<st'.display, Model(st'.par)>>
Log(h) == Len(hist) < MaxSteps /\ hist' = Append(hist, h)
Last(n, s) == SubSeq(s, IF Len(s) > n THEN Len(s) - n + 1 ELSE 1, Len(s))
(* trail: the parameter states an undo button should lead back through *)
Push(on) == trail' = IF on /\ st.track THEN Last(Limit, Append(trail, st.par)) ELSE trail
DoMove(i, v) == st' = Move(st, i, N(v), Free[i], NoTies) /\ Push(~NEq(Clip(v, Free[i]), st.par.val[i])) /\ mark' = <<>> /\ InStep /\ Log(<<"move", i, v>>)
DoVary(i, b) == st' = Vary(st, i, b) /\ Push(FALSE) /\ mark' = <<>> /\ InStep /\ Log(<<"vary", i, b>>)
DoFit(v) == (\E i \in 1..2 : st.par.vary[i]) /\ st' = Fit(st, [i \in 1..2 |-> IF st.par.vary[i] THEN Clip(v, Free[i]) ELSE st.par.val[i]]) /\ Push(TRUE) /\ mark' = <<>> /\ InStep /\ Log(<<"fit">>)
DoUndo == st.track /\ st' = Undo(st) /\ trail' = (IF trail = <<>> THEN trail ELSE SubSeq(trail, 1, Len(trail) - 1)) /\ mark' = <<st>> /\ InStep /\ Log(<<"undo">>)
DoRedo == st.track /\ ~RedoOpen(st) /\ st' = Redo(st) /\ Push(st.redo # <<>>) /\ mark' = <<>> /\ InStep /\ Log(<<"redo">>)
DoReset == st.track /\ st' = Reset(st) /\ Push(TRUE) /\ mark' = <<>> /\ InStep /\ Log(<<"reset">>)
DoSelect(d) == st' = Select(st, d) /\ UNCHANGED <<trail, mark>> /\ InStep /\ Log(<<"select", d>>)
Next == (\E i \in 1..2, v \in Values : DoMove(i, v)) \/ (\E i \in 1..2, b \in BOOLEAN : DoVary(i, b)) \/ (\E v \in Values : DoFit(v))
  \/ DoUndo \/ DoRedo \/ DoReset \/ \E d \in {"Psi/Delta", "Rho"} : DoSelect(d)
Spec == Init /\ [][Next]_vars
View == <<st, shown, ticks, drawn, trail, mark, Len(hist)>>
Shown == shown = st.par.val /\ ticks = st.par.vary
Drawn == drawn = <<st.display, Model(st.par)>>
Trail == st.undo = trail
RedoOnlyAfterUndo == st.redo # <<>> => \E i \in 1..Len(hist) : hist[i] = <<"undo">>
InBounds == \A i \in 1..2 : Clip(st.par.val[i], Free[i]) = st.par.val[i]
(* redo straight after an undo that undid something: the same state, except that it can be undone again *)
UndoRedo == [][(hist' # hist /\ hist'[Len(hist')] = <<"redo">> /\ mark # <<>>) => st'.par = mark[1].par /\ (mark[1].undo # <<>> => st'.undo = mark[1].undo)]_vars
(* curves: a model equal to the measurement coincides with it in every display, and the residual is then zero *)
ASSUME \A d \in {"Psi/Delta", "Rho", "Pseudo Diel."} : LET c == Curves(d, 65, 33, 140, 33, 140, RhoOf(33, 140)) IN Close(c[1], c[3], "1e-40", 0) /\ Close(c[2], c[4], "1e-40", 0)
ASSUME LET c == Curves("Residual", 65, 33, 140, 33, 140, RhoOf(33, 140)) IN \A i \in 1..4 : Close(c[i], 0, "1e-40", 0)
ASSUME \A a \in {40, 70} : \A e \in {"11.7", "15.1|0.2", "-4|3"} : LET r == BareRho(N(e), a) c == Curves("Pseudo Diel.", a, 33, 140, 33, 140, r) IN
  Close(Cx(c[3], c[4]), N(e), "1e-35", 0)

Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))
Pick(S) == {RandomElement(S)}
GenNext == Len(hist) < MaxSteps /\ \E c \in Pick(1..16) : \E i \in Pick(1..2) : \E v \in Pick(Values) : \E b \in Pick(BOOLEAN) : \E d \in Pick(Displays) :
  IF c <= 5 THEN DoMove(i, v) ELSE IF c = 6 THEN DoVary(i, b) ELSE IF c = 7 /\ (\E k \in 1..2 : st.par.vary[k]) THEN DoFit(v)
  ELSE IF c <= 10 /\ st.track THEN DoUndo ELSE IF c <= 12 /\ st.track THEN (IF RedoOpen(st) THEN DoUndo ELSE DoRedo)
  ELSE IF c = 13 /\ st.track THEN DoReset ELSE DoSelect(d)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
