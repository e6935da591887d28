---------------------------- MODULE Tr_Dispersion ----------------------------
(***************************************************************************)
(* Recorded evaluations of real dispersions against Dispersion.            *)
(*   disp   d                         the dispersion under test            *)
(*   ask    what w err v              get_dielectric / get_refractive_index*)
(*   frame  what conj w err x a b     the data-frame forms                 *)
(*   create cls nx ny err             making a table of nx, ny values      *)
(*   default what err v w f           asked without wavelengths            *)
(***************************************************************************)
EXTENDS Dispersion, TraceBase
VARIABLE d
vars == <<d, l>>
Init == l = 1 /\ d = [cls |-> "none"]

DispEv == /\ Is("disp")
          /\ d' = IF Ev.d.cls = "CodyLorentz" THEN Ev.d @@ [grid |-> CLTable(Ev.d.single)] ELSE Ev.d

RTol == IF d.cls \in {"DrudeResistivity"} THEN "3e-8" ELSE IF d.cls \in {"TaucLorentz", "CodyLorentz", "Tanguy"} THEN "1e-6" ELSE "1e-8"
ATol == IF d.cls \in {"TaucLorentz", "CodyLorentz", "Tanguy"} THEN "1e-6" ELSE "1e-9"
Want(what, w) == IF what = "eps" THEN Eps(d, w) ELSE Index(d, w)
Domain(w) == IF d.cls \in {"Table", "TableEpsilon"} THEN Covers(d.x, w) ELSE TRUE

AskEv ==
  /\ Is("ask")
  /\ LET inside == \A i \in 1..Len(Ev.w) : Domain(Ev.w[i]) IN
     IF ~inside THEN Chk(d.cls \o "-outside-accepted", Ev.err # "", "")
     ELSE IF Ev.err # "" THEN Chk(d.cls \o "-raises", FALSE, Ev.err)
     ELSE IF Len(Ev.v) # Len(Ev.w) THEN Chk(d.cls \o "-length", FALSE, "")
     ELSE \A i \in 1..Len(Ev.w) :
       LET want == Want(Ev.what, Ev.w[i]) IN
       IF ~IsNum(want) THEN TRUE     \* on a pole
       ELSE Chk(d.cls \o "-" \o Ev.what, Close(Ev.v[i], want, ATol, RTol), "at " \o Show(Ev.w[i]) \o " nm observed " \o Show(Ev.v[i]) \o ", specified " \o Show(want))
  /\ UNCHANGED d

FrameEv ==
  /\ Is("frame")
  /\ IF Ev.err # "" THEN Chk(d.cls \o "-frame-raises", FALSE, Ev.err)
     ELSE IF Len(Ev.x) # Len(Ev.w) \/ Len(Ev.a) # Len(Ev.w) \/ Len(Ev.b) # Len(Ev.w) THEN Chk("frame-length", FALSE, "")
     ELSE \A i \in 1..Len(Ev.w) :
       LET want == Want(Ev.what, Ev.w[i])
           im == IF Ev.conj THEN NNeg(Im(want)) ELSE Im(want) IN
       IF ~IsNum(want) THEN TRUE
       ELSE /\ ChkNum("frame-wavelength", Ev.x[i], Ev.w[i], "1e-9", 0)
            \* each part against the size of the whole number
            /\ Chk("frame-" \o Ev.what, NLeq(NAbs(Ev.a[i] (-) Re(want)), N(ATol) (+) (RTol (.) NAbs(want))) /\ IsReal(Ev.a[i]), d.cls \o " real part " \o Show(Ev.a[i]) \o ", specified " \o Show(want))
            /\ Chk("frame-" \o Ev.what \o "-imaginary", NLeq(NAbs(Ev.b[i] (-) im), N(ATol) (+) (RTol (.) NAbs(want))) /\ IsReal(Ev.b[i]), d.cls \o " imaginary part " \o Show(Ev.b[i]) \o ", specified " \o Show(im))
  /\ UNCHANGED d

(* making a table *)
CreateEv == /\ Is("create")
            /\ LET ok == Ev.nx > 0 /\ Ev.nx = Ev.ny IN
               Chk(Ev.cls \o (IF ok THEN "-creation-raises" ELSE "-creation-accepted"), ok = (Ev.err = ""), Ev.err \o " " \o ToString(<<Ev.nx, Ev.ny>>))
            /\ UNCHANGED d
(* without wavelengths a table answers at its own nodes *)
DefaultEv ==
  /\ Is("default")
  /\ IF Ev.err # "" THEN Chk(d.cls \o "-default-raises", FALSE, Ev.err)
     ELSE IF Len(Ev.w) # Len(d.x) \/ Len(Ev.v) # Len(d.x) \/ Len(Ev.f) # Len(d.x) THEN Chk(d.cls \o "-default-length", FALSE, ToString(<<Len(Ev.w), Len(Ev.v), Len(d.x)>>))
     ELSE \A i \in 1..Len(d.x) :
       /\ Chk(d.cls \o "-default-grid", \E j \in 1..Len(d.x) : Close(Ev.w[j], d.x[i], "1e-9", "1e-12"), "no row at " \o Show(d.x[i]))
       /\ IF Covers(d.x, Ev.w[i])
          THEN /\ ChkNum(d.cls \o "-default-value", Ev.v[i], Want(Ev.what, Ev.w[i]), ATol, RTol)
               /\ ChkNum(d.cls \o "-default-frame", Ev.f[i], Want(Ev.what, Ev.w[i]), ATol, RTol)
          ELSE TRUE
  /\ UNCHANGED d

Next == CreateEv \/ DefaultEv \/ DispEv \/ AskEv \/ FrameEv
Spec == Init /\ [][Next]_vars
=============================================================================
