------------------------------ MODULE Tr_Session ------------------------------
(***************************************************************************)
(* Recorded fitting sessions against Session.  Every event carries what    *)
(* the user then sees:  err, val, vary (the session's parameters), shown,  *)
(* ticks (the boxes), fig (the plotted curves, by wavelength), measured,   *)
(* and model: the user's model evaluated at val.                           *)
(*  open kind track ties bounds angle past display                         *)
(*  move i v | vary i on | fit | undo | redo | reset | select d            *)
(*  fit: before, near  the model before, and at neighbouring parameters    *)
(*  data given form both at got   the session's table of the model; model  *)
(*       is then the user's model at `at`                                  *)
(*  view d at fig      a drawing of the fit: plot, plot_rho, plot_residual *)
(***************************************************************************)
EXTENDS Session, TraceBase
(* legs: how the curves of each display seen so far were called *)
VARIABLES st, o, legs
vars == <<l, st, o, legs>>
Nums(e) == [i \in 1..Len(e) |-> N(e[i])]
SeqEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : NEq(a[i], b[i])
Text(v) == LET f[i \in 0..Len(v)] == IF i = 0 THEN "" ELSE f[i - 1] \o " " \o Show(v[i]) IN f[Len(v)]
Init == l = 1 /\ legs = <<>> /\ st = Begin([val |-> <<>>, vary |-> <<>>], FALSE, "", 50) /\ o = <<>>
ParAt(e) == [val |-> Nums(e.val), vary |-> e.vary]
Far(z) == NLt("1e-2", NAbs(N(1) (+) z))
ChkCurve(d, j, k, got, want) == Chk("curve-" \o d, Close(got, want, "1e-9", "1e-9"), "curve " \o ToString(j) \o " at " \o ToString(k) \o ": plotted " \o Show(got) \o ", specified " \o Show(want))
(* measured, model: one row per wavelength *)
PsiFig(open, d) == IF Len(Ev.fig) # 4 THEN Chk("curves", FALSE, "number of curves " \o ToString(Len(Ev.fig)))
  ELSE \A k \in 1..Len(open.measured) :
    LET m == Ev.model[k] e == open.measured[k] c == Force(Curves(d, open.angle, N(e[1]), N(e[2]), N(m[1]), N(m[2]), N(m[3]))) IN
    \A j \in 1..4 : IF d = "Pseudo Diel." /\ ~(Far(RhoOf(e[1], e[2])) /\ Far(N(m[3]))) THEN TRUE ELSE ChkCurve(d, j, k, Ev.fig[j][k], c[j])
MmFig(open, d) == IF Len(Ev.fig) # 32 THEN Chk("curves", FALSE, "number of curves " \o ToString(Len(Ev.fig)))
  ELSE \A k \in 1..Len(open.measured) : \A j \in 1..16 :
    LET m == Ev.model[k][j] e == open.measured[k][j] IN
    ChkCurve(d, (2 * j) - 1, k, Ev.fig[(2 * j) - 1][k], e) /\ ChkCurve(d, 2 * j, k, Ev.fig[2 * j][k], IF d = "Residual" THEN N(m) (-) e ELSE N(m))
Seen(open, s) ==
  /\ Chk("raises", Ev.err = "", Ev.err)
  /\ Chk("parameters", SeqEq(Ev.val, s.par.val), "parameters" \o Text(Nums(Ev.val)) \o "; specified" \o Text(s.par.val))
  /\ ChkEq("vary", Ev.vary, s.par.vary)
  /\ Chk("shown", SeqEq(Ev.shown, s.par.val), "shown" \o Text(Nums(Ev.shown)) \o "; specified" \o Text(s.par.val))
  /\ ChkEq("ticks", Ev.ticks, s.par.vary)
  /\ Chk("measured", Ev.measured = open.measured, "the measured data changed")
  /\ Chk("points", Ev.extra = 0, ToString(Ev.extra) \o " points beside the measured wavelengths")
  /\ IF SeqEq(Ev.val, s.par.val) THEN IF open.kind = "mm" THEN MmFig(open, s.display) ELSE PsiFig(open, s.display) ELSE TRUE
(* the names of the curves depend on nothing but the display, and tell the curves apart *)
Named(d, known) ==
  /\ legs' = IF d \in DOMAIN known THEN known ELSE [x \in DOMAIN known \cup {d} |-> IF x = d THEN Ev.legend ELSE known[x]]
  /\ IF d \in DOMAIN known THEN ChkEq("legend-" \o d, Ev.legend, known[d])
     ELSE Chk("legend-" \o d, \A i, j \in 1..Len(Ev.legend) : i # j => Ev.legend[i] # Ev.legend[j], ToString(Ev.legend))
To(s) == st' = Force(s) /\ UNCHANGED o /\ Seen(o, s) /\ Named(s.display, legs)
OpenEv ==
  /\ Is("open")
  /\ o' = Ev
  /\ LET s == [Begin(ParAt(Ev), Ev.track, Ev.display, 50) EXCEPT !.undo = [i \in 1..Len(Ev.past) |-> ParAt(Ev.past[i])]] IN st' = Force(s) /\ Seen(Ev, s) /\ Named(s.display, <<>>)
MoveEv == Is("move") /\ To(Move(st, Ev.i, N(Ev.v), o.bounds[Ev.i], o.ties))
VaryEv == Is("vary") /\ To(Vary(st, Ev.i, Ev.on))
UndoEv == Is("undo") /\ To(Undo(st))
(* pressing redo after a change that followed the undo: nothing, or back to what was undone *)
RedoEv == Is("redo") /\ To(IF RedoOpen(st) /\ SeqEq(Ev.val, st.par.val) /\ ~SeqEq(st.redo[1].val, st.par.val) THEN st ELSE Redo(st))
ResetEv == Is("reset") /\ To(Reset(st))
SelectEv == Is("select") /\ To(Select(st, Ev.d))
(* a fit: parameters that do not vary stay, the others keep their bounds, tied ones follow, and the agreement does not get worse *)
SqSum(model) == IF o.kind = "mm" THEN NSumSeq([k \in 1..Len(model) |-> NSumSeq([j \in 1..16 |-> Sq(N(model[k][j]) (-) o.measured[k][j])])])
                ELSE NSumSeq([k \in 1..Len(model) |-> LET z == RhoOf(o.measured[k][1], o.measured[k][2]) (-) model[k][3] IN Sq(Re(z)) (+) Sq(Im(z))])
FitEv ==
  /\ Is("fit")
  /\ LET v == Nums(Ev.val) IN
     /\ Chk("fit-moved", \A i \in 1..Len(v) : (st.par.vary[i] \/ o.ties[i] # 0 \/ NEq(v[i], st.par.val[i])), "a parameter that does not vary was fitted:" \o Text(v))
     /\ Chk("fit-bounds", \A i \in 1..Len(v) : Close(Clip(v[i], o.bounds[i]), v[i], "1e-12", "1e-12"), "outside the bounds:" \o Text(v))
     /\ Chk("fit-tied", SeqEq(Tie(v, o.ties), v), "tied parameters do not follow:" \o Text(v))
     /\ Chk("fit-worse", NLeq(SqSum(Ev.model), (SqSum(Ev.before) (.) "1.000001") (+) "1e-15"), "sum of squares " \o Show(SqSum(Ev.model)) \o ", before " \o Show(SqSum(Ev.before)))
     /\ \A i \in 1..Len(Ev.near) : Chk("fit-best", NLeq(SqSum(Ev.model), (SqSum(Ev.near[i]) (.) "1.0001") (+) "1e-9"), "sum of squares " \o Show(SqSum(Ev.model)) \o ", next to it " \o Show(SqSum(Ev.near[i])))
     /\ To(Fit(st, v))
(* the model as a table, at the fitted or at given parameters *)
ExpRow(k) == IF Ev.form = "rho" THEN <<RhoOf(o.measured[k][1], o.measured[k][2])>> ELSE o.measured[k]
SimRow(k) == IF Ev.form = "rho" THEN <<Ev.model[k][3]>> ELSE IF Ev.form = "mm" THEN Ev.model[k] ELSE SubSeq(Ev.model[k], 1, 2)
Fitted == Chk("fitted", SeqEq(Ev.at, st.fitted.val), "fitted parameters" \o Text(Nums(Ev.at)) \o "; specified" \o Text(st.fitted.val))
          /\ Chk("measured", Ev.measured = o.measured, "the measured data changed") /\ Chk("raises", Ev.err = "", Ev.err)
DataEv ==
  /\ Is("data") /\ UNCHANGED <<st, o, legs>>
  /\ IF Ev.given THEN Chk("measured", Ev.measured = o.measured, "the measured data changed") /\ Chk("raises", Ev.err = "", Ev.err) ELSE Fitted
  /\ ChkEq("data-shape", Len(Ev.got), Len(o.measured))
  /\ IF Len(Ev.got) = Len(o.measured) THEN \A k \in 1..Len(Ev.got) : ChkSeq("data-" \o Ev.form, Ev.got[k], IF Ev.both THEN ExpRow(k) \o SimRow(k) ELSE SimRow(k), "1e-9", "1e-9") ELSE TRUE
(* drawings of the fit *)
ViewEv ==
  /\ Is("view") /\ UNCHANGED <<st, o, legs>> /\ Fitted
  /\ Chk("points", Ev.extra = 0, ToString(Ev.extra) \o " points beside the measured wavelengths")
  /\ IF Ev.err # "" THEN TRUE
     ELSE IF Ev.d = "plot_residual"
     THEN IF Len(Ev.fig) # 16 THEN Chk("curves", FALSE, "number of curves " \o ToString(Len(Ev.fig)))
          ELSE \A k \in 1..Len(o.measured) : \A j \in 1..16 : ChkCurve("plot_residual", j, k, Ev.fig[j][k], N(Ev.model[k][j]) (-) o.measured[k][j])
     ELSE IF o.kind = "mm" THEN MmFig(o, "Theory") ELSE PsiFig(o, IF Ev.d = "plot" THEN "Psi/Delta" ELSE "Rho")
Next == OpenEv \/ MoveEv \/ VaryEv \/ FitEv \/ UndoEv \/ RedoEv \/ ResetEv \/ SelectEv \/ DataEv \/ ViewEv
Spec == Init /\ [][Next]_vars
=============================================================================
