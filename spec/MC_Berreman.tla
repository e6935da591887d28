----------------------------- MODULE MC_Berreman -----------------------------
(***************************************************************************)
(* Laws of Berreman, on all stacks of up to MaxLayers layers from a small  *)
(* set of tensors: energy balance, reciprocity, agreement with the         *)
(* isotropic theory IsoStack, and of the forward projector.                *)
(* (64-digit arithmetic; the tolerance is 1e-40.)                          *)
(***************************************************************************)
EXTENDS Berreman, Tensor, TLC, FiniteSets
CONSTANTS MaxLayers, Sines
VARIABLES hist, sine
vars == <<berVars, hist, sine>>
Tiny == "1e-40"
NoRot == [kind |-> "none", a |-> <<>>]
(* principal values, rotation, lossless, isotropic index ("" if anisotropic) *)
Mats == << [d |-> <<"9/4", "9/4", "9/4">>, r |-> NoRot, ll |-> TRUE, n |-> "3/2"],
           [d |-> <<"2", "2", "3">>, r |-> [kind |-> "euler", a |-> <<30, 60, 0>>], ll |-> TRUE, n |-> ""],
           [d |-> <<"5", "7/2", "6">>, r |-> [kind |-> "euler", a |-> <<-20, 35, 70>>], ll |-> TRUE, n |-> ""],
           [d |-> <<"3|1", "4|1/2", "2">>, r |-> [kind |-> "vt", a |-> <<"3/5", "4/5", 0, 50>>], ll |-> FALSE, n |-> ""],
           [d |-> <<"3|4", "3|4", "3|4">>, r |-> NoRot, ll |-> FALSE, n |-> "2|1"] >>
Thick == {"40", "130"}
Lam == N(500)
Turn(m) == IF m.r.kind = "none" THEN TensorOf(m.d, m.r)
           ELSE Rotated(RotZ(NPi), TensorOf(m.d, m.r))

Init == /\ sine \in Sines /\ n0 = N(1) /\ kx = N(sine) /\ T = MId(4) /\ hist = <<>>
Next == /\ Len(hist) < MaxLayers
        /\ \E i \in 1..Len(Mats), d \in Thick :
             /\ Cross(TensorOf(Mats[i].d, Mats[i].r), N(d), Lam)
             /\ hist' = Append(hist, <<i, d>>)
        /\ UNCHANGED sine
Spec == Init /\ [][Next]_vars

RECURSIVE TOf(_, _, _)
TOf(h, j, turned) ==
  IF j > Len(h) THEN MId(4)
  ELSE LET m == Mats[h[j][1]]
       IN MMul(LayerT(IF turned THEN Turn(m) ELSE TensorOf(m.d, m.r), kx, N(h[j][2]), Lam), TOf(h, j + 1, turned))

Lossless == \A j \in 1..Len(hist) : Mats[hist[j][1]].ll
PowerT(n) == Re(NSqrt(Sq(n) (-) Sq(kx))) (/) NSqrt(N(1) (-) Sq(kx))
Column(a, n, c) == ((Abs2(a.r[1][c]) (+) Abs2(a.r[2][c])) (+) (PowerT(n) (.) (Abs2(a.t[1][c]) (+) Abs2(a.t[2][c]))))
Energy == \A n \in {"3/2", "1", "1/2"} : LET a == LeaveIso(N(n)) IN \A c \in 1..2 :
   IF Lossless THEN Close(Column(a, n, c), 1, Tiny, 0) ELSE NLt(Column(a, n, c), 1)

(* r_pp, r_ss are unchanged and r_ps, r_sp exchanged with opposite sign when the sample is turned by 180 degrees *)
ReciprocityFor(r, s) ==
  /\ Close(r[1][1], s[1][1], Tiny, 0) /\ Close(r[2][2], s[2][2], Tiny, 0)
  /\ Close(r[1][2], NNeg(s[2][1]), Tiny, 0) /\ Close(r[2][1], NNeg(s[1][2]), Tiny, 0)
LeaveWith(TT, W) == LET psi == MMul(TT, W) IN MMul(Outgoing(psi), MInv(Incoming(psi)))
Reciprocity ==
  /\ ReciprocityFor(LeaveIso(N("3/2")).r, LeaveWith(TOf(hist, 1, TRUE), IsoForward(N("3/2"), kx)))
  /\ ReciprocityFor(LeaveAny(TensorOf(Mats[3].d, Mats[3].r)).r, LeaveWith(TOf(hist, 1, TRUE), AnyForward(Turn(Mats[3]), kx)))

(* The structure turned over (order of the layers reversed, tensors turned by 180 degrees about y):
   the power transmittance from p to s becomes that from s to p. *)
Over(e) == LET C == << <<N(-1), N(0), N(0)>>, <<N(0), N(1), N(0)>>, <<N(0), N(0), N(-1)>> >> IN MMul(MMul(C, e), C)
RECURSIVE TOver(_, _)
TOver(h, j) ==
  IF j = 0 THEN MId(4)
  ELSE LET m == Mats[h[j][1]] IN MMul(LayerT(Over(TensorOf(m.d, m.r)), kx, N(h[j][2]), Lam), TOver(h, j - 1))
Turnaround == \A n \in {"3/2", "2"} :
  LET a == LeaveIso(N(n)).t
      inv == MInv(IncomingIn(N(n), MMul(TOver(hist, Len(hist)), IsoForward(n0, kx))))
      b == << inv[2], inv[1] >>
      P(t, i, j) == PowerT(n) (.) Abs2(t[i][j])
      Q(t, i, j) == Abs2(t[i][j]) (/) PowerT(n)
  IN \A i, j \in 1..2 : Close(P(a, i, j), Q(b, j, i), Tiny, 0)

(* Isotropic stacks: the 2x2 theory *)
Iso == INSTANCE IsoStack WITH med0 <- 0, Ms <- 0, Mp <- 0, depth <- 0
RECURSIVE IsoM(_, _, _)
IsoM(h, j, pol) ==
  IF j > Len(h) THEN Iso!Id2
  ELSE LET m == Iso!Medium(N(Mats[h[j][1]].n), kx)
           q == IF pol = "s" THEN Iso!AdmS(m) ELSE Iso!AdmP(m)
       IN Iso!Mul2(Iso!LayerMatrix(q, Iso!PropFactor(m.kz, N(h[j][2]), Lam)), IsoM(h, j + 1, pol))
AllIso == \A j \in 1..Len(hist) : Mats[hist[j][1]].n # ""
IsotropicLimit == AllIso => \A n \in {"3/2", "1/2", "1|3"} :
  LET a == LeaveIso(N(n))
      m0 == Iso!Medium(N(1), kx)
      x == Iso!Medium(N(n), kx)
      s == Iso!Amp(IsoM(hist, 1, "s"), Iso!AdmS(m0), Iso!AdmS(x))
      p == Iso!Amp(IsoM(hist, 1, "p"), Iso!AdmP(m0), Iso!AdmP(x))
  IN /\ Close(a.r[2][2], s.r, Tiny, 0) /\ Close(a.r[1][1], NNeg(p.r), Tiny, 0)
     /\ Close(a.t[2][2], s.t, Tiny, 0)
     /\ Close(a.t[1][1], p.t (.) (m0.kz (/) (x.kz (/) x.n)), Tiny, 0)
     /\ Close(a.r[1][2], 0, Tiny, 0) /\ Close(a.r[2][1], 0, Tiny, 0)
     (* the same medium treated as a general one *)
     /\ LET e == Sq(n) b == LeaveAny(<< <<e, N(0), N(0)>>, <<N(0), e, N(0)>>, <<N(0), N(0), e>> >>)
        IN MClose(a.r, b.r, Tiny, "0")

Projector == LET D == Delta(TensorOf(Mats[4].d, Mats[4].r), kx) P == ForwardProjector(D)
             IN /\ MClose(MMul(P, P), P, Tiny, "0") /\ MClose(MMul(P, D), MMul(D, P), Tiny, "0")
                /\ Close(NSumSeq([i \in 1..4 |-> P[i][i]]), 2, Tiny, 0)
=============================================================================
