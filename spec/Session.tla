------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A fitting session.  par is the set of parameters [val, vary] (both      *)
(* sequences); undo is the bounded sequence of earlier states, redo holds  *)
(* at most one state, init what a reset goes back to, fitted the result of *)
(* the last fit, display what is plotted.  A session on parameters without *)
(* history (~track) knows no undo, redo and reset.                         *)
(* stale: something was changed after the last undo, so that it is not     *)
(* laid down whether redo still brings the undone state back.              *)
(***************************************************************************)
EXTENDS Convert

Begin(par, track, display, limit) ==
  [par |-> par, undo |-> <<>>, redo |-> <<>>, init |-> par, fitted |-> par, display |-> display, track |-> track, stale |-> FALSE, limit |-> limit]
(* parameters tied to another one: ties[i] = j # 0 means value i is twice value j *)
Tie(vals, ties) == [i \in 1..Len(vals) |-> IF ties[i] = 0 THEN vals[i] ELSE vals[ties[i]] (.) 2]
Clip(v, b) == IF b[1] # "-inf" /\ NLt(v, b[1]) THEN N(b[1]) ELSE IF b[2] # "inf" /\ NLt(b[2], v) THEN N(b[2]) ELSE N(v)
Saved(s) == IF ~s.track THEN s
            ELSE [s EXCEPT !.undo = Append(IF Len(s.undo) >= s.limit THEN Tail(s.undo) ELSE s.undo, s.par), !.stale = TRUE]
(* typing a value into a parameter's box; the value shown already does nothing *)
Move(s, i, v, b, ties) ==
  LET c == Clip(v, b) IN IF NEq(c, s.par.val[i]) THEN s ELSE [Saved(s) EXCEPT !.par.val = Tie([s.par.val EXCEPT ![i] = c], ties)]
Vary(s, i, on) == [s EXCEPT !.par.vary[i] = on, !.init.vary[i] = on]
Fit(s, vals) == [Saved(s) EXCEPT !.par.val = vals, !.fitted = [s.par EXCEPT !.val = vals]]
Undo(s) == IF s.undo = <<>> THEN [s EXCEPT !.redo = <<>>, !.stale = FALSE]
           ELSE [s EXCEPT !.par = s.undo[Len(s.undo)], !.undo = SubSeq(s.undo, 1, Len(s.undo) - 1), !.redo = <<s.par>>, !.stale = FALSE]
Redo(s) == IF s.redo = <<>> THEN s ELSE [Saved(s) EXCEPT !.par = s.redo[1], !.redo = <<>>]
Reset(s) == [Saved(s) EXCEPT !.par = s.init, !.redo = <<>>]
Select(s, d) == [s EXCEPT !.display = d]
(* redo brings back an undone state only if nothing was changed since; otherwise either is allowed *)
RedoOpen(s) == s.redo # <<>> /\ s.stale

(* ---- what is plotted, from the measured psi, delta and the model's psi, delta, rho *)
RhoOf(psi, del) == Tan(Deg(psi)) (.) Cx(NCos(Deg(del)), NNeg(NSin(Deg(del))))
Curves(display, angle, ep, ed, mp, md, mr) ==
  IF display = "Psi/Delta" THEN <<ep, ed, mp, md>>
  ELSE IF display = "Rho" THEN LET er == RhoOf(ep, ed) IN <<Re(er), Im(er), Re(mr), Im(mr)>>
  ELSE IF display = "Pseudo Diel." THEN LET a == PseudoEps(RhoOf(ep, ed), angle) b == PseudoEps(mr, angle) IN <<Re(a), Im(a), Re(b), Im(b)>>
  ELSE LET er == RhoOf(ep, ed) (-) mr IN <<ep (-) mp, ed (-) md, Re(er), Im(er)>>
=============================================================================
