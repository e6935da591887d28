-------------------------------- MODULE Tr_Ani --------------------------------
(***************************************************************************)
(* Recorded evaluations of anisotropic structures against Berreman.        *)
(*   start n theta lbda linear                                             *)
(*   layer diag rot d         material and thickness                       *)
(*   slab  eps d              medium given by its nine components, as a     *)
(*                            magnetised (gyrotropic) one is, and thickness *)
(*   iso   n obs              isotropic exit:  r and t of every route       *)
(*   any   diag rot obs       any exit:        r of every route             *)
(***************************************************************************)
EXTENDS Berreman, Tensor, TraceBase

VARIABLES lam, linear
vars == <<berVars, lam, linear, l>>

ATol == "1e-7"
RTol == "1e-6"

Init == l = 1 /\ lam = N(1) /\ linear = FALSE /\ n0 = N(1) /\ kx = N(0) /\ T = MId(4)

Start == /\ Is("start")
         /\ Enter(Ev.n, N(Ev.n) (.) NSin(Deg(Ev.theta)))
         /\ lam' = N(Ev.lbda) /\ linear' = Ev.linear

LayerEv == /\ Is("layer")
           /\ LET e == TensorOf(Ev.diag, Ev.rot)
              IN IF linear THEN CrossLinear(e, Ev.d, lam) ELSE Cross(e, Ev.d, lam)
           /\ UNCHANGED <<lam, linear>>

SlabEv == /\ Is("slab")
          /\ LET e == MNum(Ev.eps)
             IN IF linear THEN CrossLinear(e, Ev.d, lam) ELSE Cross(e, Ev.d, lam)
          /\ UNCHANGED <<lam, linear>>

Idx == << <<"pp", 1, 1>>, <<"ps", 1, 2>>, <<"sp", 2, 1>>, <<"ss", 2, 2>> >>
JudgeM(by, what, got, want) ==
  \A i \in 1..4 : ChkNum(by \o "-" \o what \o "_" \o Idx[i][1],
                         got[Idx[i][2]][Idx[i][3]], want[Idx[i][2]][Idx[i][3]], ATol, RTol)

ExitIso == /\ Is("iso")
           /\ LET a == LeaveIso(N(Ev.n))
              IN \A i \in 1..Len(Ev.obs) : LET o == Ev.obs[i] IN
                   IF o.err # "" THEN Chk(o.by \o "-raises", FALSE, o.err)
                   ELSE JudgeM(o.by, "r", o.r, a.r) /\ JudgeM(o.by, "t", o.t, a.t)
           /\ UNCHANGED <<berVars, lam, linear>>

ExitAny == /\ Is("any")
           /\ LET a == LeaveAny(TensorOf(Ev.diag, Ev.rot))
              IN \A i \in 1..Len(Ev.obs) : LET o == Ev.obs[i] IN
                   IF o.err # "" THEN Chk(o.by \o "-raises", FALSE, o.err)
                   ELSE JudgeM(o.by, "r", o.r, a.r)
           /\ UNCHANGED <<berVars, lam, linear>>

Next == Start \/ LayerEv \/ SlabEv \/ ExitIso \/ ExitAny
Spec == Init /\ [][Next]_vars
=============================================================================
