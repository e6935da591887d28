------------------------------- MODULE Tr_Nexus -------------------------------
(***************************************************************************)
(* Recorded readings of NeXus files against Nexus.                         *)
(*  read fs n err rows rho        a measurement; fs: the nodes of the file *)
(*  load fs tokens err mats       materials: mats[e] = [kind, w, eps, asis, *)
(*                                everr, used]; eps[k][j] at w[k]; asis:    *)
(*                                at w taken as if in the unit of tables    *)
(***************************************************************************)
EXTENDS Nexus, TraceBase
vars == <<l>>
Init == l = 1
F == Ev.fs
RowOk(r, w) == NEq(r.aoi, w.aoi) /\ Close(r.wl, w.wl, 0, "1e-9") /\ NEq(r.psi, w.psi) /\ NEq(r.delta, w.delta)
Text(r) == "<" \o Show(r.aoi) \o ", " \o Show(r.wl) \o ", " \o Show(r.psi) \o ", " \o Show(r.delta) \o ">"
ReadEv == Is("read") /\
  IF ~Readable(F, Ev.n) THEN Chk("accepted", Ev.err # "", ToString(Ev.n))
  ELSE IF ~Fits(F, Ev.n) THEN TRUE
  ELSE IF Ev.err # "" THEN Chk("raises", FALSE, Ev.err)
  ELSE LET want == Rows(F, Ev.n) IN
    IF Len(Ev.rows) # Len(want) THEN Chk("rows", FALSE, ToString(Len(Ev.rows)) \o " rows, specified " \o ToString(Len(want)))
    ELSE \A i \in 1..Len(want) :
      /\ Chk("row", RowOk(Ev.rows[i], want[i]), "row " \o ToString(i) \o " " \o Text(Ev.rows[i]) \o ", specified " \o Text(want[i]))
      /\ Chk("rho", Close(Ev.rho[i], Rho(want[i].psi, want[i].delta), "1e-12", "1e-9"), "row " \o ToString(i) \o ": " \o Show(Ev.rho[i]) \o ", specified " \o Show(Rho(want[i].psi, want[i].delta)))
(* a table whose unit made no difference *)
AsIs(e, m) == ScaledTables(F, e) /\ \A k \in 1..Len(m.wasis) : \A j \in 1..3 :
  LET want == AxisEps(F, e, TensorAxis(Kind(AxesOf(F, e)), j), Ev.tokens, m.wasis[k], TRUE) IN
  ~Ok(want) \/ Close(m.asis[k][j], want.v, want.e (.) 1000, "1e-8")
Judge(e) ==
  LET axes == AxesOf(F, e)  m == Ev.mats[e] IN
  IF Open(F, e) THEN TRUE
  ELSE /\ Chk("class", m.kind = Kind(axes), m.kind \o ", specified " \o Kind(axes))
       /\ Chk("usable", m.used = "", m.used)
       /\ IF ScaledTables(F, e) /\ AsIs(e, m) THEN Chk("table-units-ignored", FALSE, e)
          ELSE \A k \in 1..Len(m.w) : \A j \in 1..3 :
            LET want == Force(AxisEps(F, e, TensorAxis(Kind(axes), j), Ev.tokens, m.w[k], FALSE)) IN
            IF ~Ok(want) THEN TRUE
            ELSE IF m.everr # "" THEN Chk("evaluation-raises", FALSE, e \o ": " \o m.everr)
            ELSE /\ Chk("value", NLeq(NAbs(N(m.eps[k][j]) (-) want.v), (want.e (.) 1000) (+) (NAbs(want.v) (.) "1e-8")),
                        e \o " axis " \o ToString(j) \o " at " \o Show(m.w[k]) \o ": " \o Show(m.eps[k][j]) \o ", specified " \o Show(want.v))
                 /\ Chk("off-diagonal", m.off, e)
LoadEv == Is("load") /\
  LET es == EntriesOf(F) IN
  IF \E e \in es : Refused(F, e) THEN Chk("material-accepted", Ev.err # "", ToString({e \in es : Refused(F, e)}))
  ELSE IF \E e \in es : Open(F, e) THEN IF Ev.err # "" THEN TRUE ELSE \A e \in es : Judge(e)
  ELSE IF Ev.err # "" THEN Chk("material-raises", FALSE, Ev.err)
  ELSE Chk("entries", DOMAIN Ev.mats = es, ToString(DOMAIN Ev.mats)) /\ \A e \in es \cap DOMAIN Ev.mats : Judge(e)
Next == ReadEv \/ LoadEv
Spec == Init /\ [][Next]_vars
===============================================================================
