------------------------------ MODULE IsoStack ------------------------------
(***************************************************************************)
(* A plane wave in a stack of homogeneous isotropic layers.                *)
(*                                                                         *)
(* The state is what has been traversed so far, front to back: the front   *)
(* medium, and for each polarisation the characteristic matrix M that maps *)
(* the tangential fields behind the traversed layers to those in front,    *)
(*        [E(0); H(0)] = M [E(z); H(z)]      (time dependence e^{-i w t}). *)
(* One action enters the stack, one crosses a layer; LeaveTo(exit) gives   *)
(* the amplitudes when the stack ends there.  Nothing else is stored, so   *)
(* the answer for every prefix of a stack is available in every state.     *)
(*                                                                         *)
(* kx is the conserved tangential wave number over k0; a medium is its     *)
(* permittivity eps together with kz, the root of eps - kx^2 that carries  *)
(* energy, or decays, away from the front.                                 *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

VARIABLES med0,   \* front medium: [eps, kz, n]
          kx,     \* tangential wave number / k0
          Ms, Mp, \* characteristic matrices <<m11, m12, m21, m22>>
          depth   \* number of layers crossed

isoVars == <<med0, kx, Ms, Mp, depth>>

Id2 == <<N(1), N(0), N(0), N(1)>>
Mul2(A, B) == << (A[1] (.) B[1]) (+) (A[2] (.) B[3]), (A[1] (.) B[2]) (+) (A[2] (.) B[4]),
                 (A[3] (.) B[1]) (+) (A[4] (.) B[3]), (A[3] (.) B[2]) (+) (A[4] (.) B[4]) >>
Det2(A) == (A[1] (.) A[4]) (-) (A[2] (.) A[3])

(* Admittance of a medium: H_t / E_t of a forward wave *)
AdmS(m) == m.kz
AdmP(m) == m.eps (/) m.kz

(* The forward kz: decaying if complex, else along +z.  NSqrt has Re >= 0, *)
(* so for a passive medium only the cut needs care: NSqrt of a negative    *)
(* real is +i|.|, which decays.                                            *)
ForwardKz(eps, k) == LET r == NSqrt(eps (-) Sq(k)) IN IF NLt(Im(r), 0) THEN NNeg(r) ELSE r

Medium(n, k) == [n |-> N(n), eps |-> Sq(n), kz |-> ForwardKz(Sq(n), k)]

(* Layer of admittance q whose propagation factor e^{i k0 kz d} is e. *)
LayerMatrix(q, e) ==
  LET c  == (e (+) NDiv(1, e)) (/) 2
      is == (e (-) NDiv(1, e)) (/) 2
  IN << c, NNeg(is (/) q), NNeg(q (.) is), c >>

PropFactor(kz, d, lbda) == NExp(I1 (.) ((2 (.) NPi) (.) (kz (.) (d (/) lbda))))

(*------------------------------ actions ---------------------------------*)
Enter(m, k) ==
  /\ med0' = m
  /\ kx' = k
  /\ Ms' = Id2
  /\ Mp' = Id2
  /\ depth' = 0

CrossWith(m, e) ==
  /\ Ms' = Mul2(Ms, LayerMatrix(AdmS(m), e))
  /\ Mp' = Mul2(Mp, LayerMatrix(AdmP(m), e))
  /\ depth' = depth + 1
  /\ UNCHANGED <<med0, kx>>

Cross(n, d, lbda) ==
  LET m == Medium(n, kx) IN CrossWith(m, PropFactor(m.kz, d, lbda))

(*------------------------------ observation -----------------------------*)
(* Amplitudes of tangential fields for exit admittance qx *)
Amp(M, q0, qx) ==
  LET B == M[1] (+) (M[2] (.) qx)
      C == M[3] (+) (M[4] (.) qx)
      D == (q0 (.) B) (+) C
  IN [r |-> ((q0 (.) B) (-) C) (/) D, t |-> (2 (.) q0) (/) D]

AmpS(x) == Amp(Ms, AdmS(med0), AdmS(x))
AmpP(x) == Amp(Mp, AdmP(med0), AdmP(x))

(* Ellipsometric amplitudes: the p reflection coefficient counts the field *)
(* along (s x k), hence the sign; transmitted p amplitude is the full      *)
(* field, not its tangential part.                                         *)
LeaveTo(x) ==
  LET s == AmpS(x)
      p == AmpP(x)
      c0 == med0.kz (/) med0.n
      cx == x.kz (/) x.n
  IN [rs |-> s.r, ts |-> s.t, rp |-> NNeg(p.r), tp |-> p.t (.) (c0 (/) cx)]

(* Power ratios (front and exit lossless, or exit evanescent) *)
Refl(a) == Abs2(a.r)
TransS(x) == NMul(Abs2(AmpS(x).t), Re(AdmS(x)) (/) Re(AdmS(med0)))
TransP(x) == NMul(Abs2(AmpP(x).t), Re(AdmP(x)) (/) Re(AdmP(med0)))
=============================================================================
