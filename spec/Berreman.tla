------------------------------ MODULE Berreman ------------------------------
(***************************************************************************)
(* A plane wave in a stack of homogeneous layers with arbitrary            *)
(* permittivity tensors.  psi = (Ex, Ey, Hx, Hy) is continuous; in a layer *)
(*      d psi / dz = i k0 Delta psi.                                       *)
(* The state is the front medium, kx and the 4x4 matrix T that maps psi    *)
(* behind the traversed layers to psi at the front.                        *)
(***************************************************************************)
EXTENDS Mat

VARIABLES n0, kx, T

berVars == <<n0, kx, T>>

(* Maxwell's equations for fields exp(i k0 (kx x - c t)):                  *)
(*   Ez, Hz follow from the tangential fields, then the curl equations.    *)
Delta(e, k) ==
  LET ez == << NNeg(e[3][1] (/) e[3][3]), NNeg(e[3][2] (/) e[3][3]), N(0), NNeg(N(k) (/) e[3][3]) >>
      hz == << N(0), N(k), N(0), N(0) >>
      unit(j) == Force([i \in 1..4 |-> IF i = j THEN N(1) ELSE N(0)])
      comb(c, r) == Force([i \in 1..4 |-> c (.) r[i]])
      plus(r, s) == Force([i \in 1..4 |-> r[i] (+) s[i]])
      D(a) == Force([i \in 1..4 |->
                 ((e[a][1] (.) unit(1)[i]) (+) (e[a][2] (.) unit(2)[i])) (+) (e[a][3] (.) ez[i])])
  IN << plus(unit(4), comb(k, ez)),
        comb(-1, unit(3)),
        plus(comb(-1, D(2)), comb(k, hz)),
        D(1) >>

LayerT(e, k, d, lbda) ==
  MExp(MScale(NNeg(I1 (.) ((2 (.) NPi) (.) (d (/) lbda))), Delta(e, k)))

(*------------------------------ actions ---------------------------------*)
Enter(n, k) == /\ n0' = N(n) /\ kx' = k /\ T' = MId(4)
Cross(e, d, lbda) == /\ T' = MMul(T, LayerT(e, kx, d, lbda)) /\ UNCHANGED <<n0, kx>>
(* the linear propagator: first order in the thickness *)
CrossLinear(e, d, lbda) ==
  /\ T' = MMul(T, MAdd(MId(4), MScale(NNeg(I1 (.) ((2 (.) NPi) (.) (d (/) lbda))), Delta(e, kx))))
  /\ UNCHANGED <<n0, kx>>

(*------------------------------ half-spaces -----------------------------*)
CosIn(n, k) == LET c == NSqrt(N(1) (-) Sq(k (/) n)) IN c

(* forward s and p waves of unit electric field in an isotropic medium *)
IsoForward(n, k) ==
  LET r == NSqrt(Sq(n) (-) Sq(k))
      kz == IF NLt(Im(r), 0) THEN NNeg(r) ELSE r
      c == kz (/) n
  IN << <<N(0), c>>, <<N(1), N(0)>>, <<NNeg(kz), N(0)>>, <<N(0), N(n)>> >>

(* Forward subspace of any medium: eigenvalues q of Delta with Im q > 0, or  *)
(* q > 0 real; separated by the half plane Re(q exp(-i pi/8)) > 0.            *)
Mixer == << <<N(3), N(-1)>>, <<N(1), N(2)>>, <<N(-2), N(5)>>, <<N(4), N(1)>> >>
ForwardProjector(D) ==
  LET S == MSign(MScale(NExp(NNeg(I1 (.) (NPi (/) 8))), D))
  IN MScale("1/2", MAdd(MId(4), S))
AnyForward(e, k) == MMul(ForwardProjector(Delta(e, k)), Mixer)

(* amplitudes of incoming and reflected waves (rows p, s) in the front medium *)
IncomingIn(n, psi) ==
  LET c == CosIn(n, kx)
  IN << << ((psi[4][1] (/) n) (+) (psi[1][1] (/) c)) (/) 2, ((psi[4][2] (/) n) (+) (psi[1][2] (/) c)) (/) 2 >>,
        << (psi[2][1] (-) (psi[3][1] (/) (n (.) c))) (/) 2, (psi[2][2] (-) (psi[3][2] (/) (n (.) c))) (/) 2 >> >>
OutgoingIn(n, psi) ==
  LET c == CosIn(n, kx)
  IN << << ((psi[4][1] (/) n) (-) (psi[1][1] (/) c)) (/) 2, ((psi[4][2] (/) n) (-) (psi[1][2] (/) c)) (/) 2 >>,
        << (psi[2][1] (+) (psi[3][1] (/) (n (.) c))) (/) 2, (psi[2][2] (+) (psi[3][2] (/) (n (.) c))) (/) 2 >> >>
Incoming(psi) == IncomingIn(n0, psi)
Outgoing(psi) == OutgoingIn(n0, psi)

(*------------------------------ observation -----------------------------*)
(* Exit into an isotropic medium: r and t as [outgoing][incident], p then s *)
LeaveIso(n) ==
  LET psi == MMul(T, IsoForward(n, kx))      \* columns: unit s, unit p transmitted
      inv == MInv(Incoming(psi))
      SwapRows == << <<N(0), N(1)>>, <<N(1), N(0)>> >>
  IN [r |-> MMul(Outgoing(psi), inv), t |-> MMul(SwapRows, inv)]

LeaveAny(e) ==
  LET psi == MMul(T, AnyForward(e, kx))
  IN [r |-> MMul(Outgoing(psi), MInv(Incoming(psi)))]
=============================================================================
