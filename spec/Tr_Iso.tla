-------------------------------- MODULE Tr_Iso --------------------------------
(***************************************************************************)
(* Recorded evaluations of isotropic structures against IsoStack.          *)
(*   start n theta lbda        light enters from the front medium          *)
(*   layer n d                 a layer is crossed                          *)
(*   exit  n obs               what each solver returned for this stack    *)
(***************************************************************************)
EXTENDS IsoStack, TraceBase

VARIABLE lam
vars == <<isoVars, lam, l>>

ATol == "1e-8"
RTol == "1e-7"

Init == /\ l = 1 /\ lam = N(1) /\ med0 = Medium(1, N(0)) /\ kx = N(0)
        /\ Ms = Id2 /\ Mp = Id2 /\ depth = 0

Start == /\ Is("start")
         /\ LET k == N(Ev.n) (.) NSin(Deg(Ev.theta)) IN Enter(Medium(Ev.n, k), k)
         /\ lam' = N(Ev.lbda)

LayerEv == /\ Is("layer") /\ Cross(Ev.n, Ev.d, lam) /\ UNCHANGED lam

Judge(o, a) ==
  IF o.err # "" THEN Chk(o.by \o "-raises", FALSE, o.err)
  ELSE /\ ChkNum(o.by \o "-r_pp", o.rpp, a.rp, ATol, RTol)
       /\ ChkNum(o.by \o "-r_ss", o.rss, a.rs, ATol, RTol)
       /\ ChkNum(o.by \o "-t_pp", o.tpp, a.tp, ATol, RTol)
       /\ ChkNum(o.by \o "-t_ss", o.tss, a.ts, ATol, RTol)
       /\ ChkNum(o.by \o "-r_ps", o.rps, 0, ATol, RTol)
       /\ ChkNum(o.by \o "-r_sp", o.rsp, 0, ATol, RTol)
       /\ ChkNum(o.by \o "-t_ps", o.tps, 0, ATol, RTol)
       /\ ChkNum(o.by \o "-t_sp", o.tsp, 0, ATol, RTol)

Exit == /\ Is("exit")
        /\ LET x == Medium(Ev.n, kx) a == LeaveTo(x)
           IN \A i \in 1..Len(Ev.obs) : Judge(Ev.obs[i], a)
        /\ UNCHANGED <<isoVars, lam>>

Next == Start \/ LayerEv \/ Exit
Spec == Init /\ [][Next]_vars
=============================================================================
