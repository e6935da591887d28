----------------------------- MODULE MC_IsoStack -----------------------------
(***************************************************************************)
(* Exhaustive check of IsoStack on media for which every quantity is an    *)
(* exact (Gaussian) rational: kx = 3, front index 5 (kz 4), media with     *)
(* eps = 9 + kz^2, rational or imaginary kz, and layers whose propagation  *)
(* factor is a rational point of the unit circle (transparent) or a        *)
(* rational decay (evanescent).  All stacks of up to MaxLayers layers.     *)
(***************************************************************************)
EXTENDS IsoStack, TLC, FiniteSets

CONSTANTS MaxLayers

VARIABLE hist          \* the layers crossed, for the reversal law and the behaviours

vars == <<isoVars, hist>>

K == N(3)
Kz == <<"4", "1", "3/2", "12", "0|2", "0|1/3", "7">>
MedOf(i) == [eps |-> N(9) (+) Sq(Kz[i]), kz |-> N(Kz[i]), n |-> NSqrt(N(9) (+) Sq(Kz[i]))]
Transp == {1, 2, 3, 4, 7}
Evan == {5, 6}
Phases == {"3/5|4/5", "-5/13|12/13", "0|1", "-1", "-15/17|-8/17"}
Decays == {"1/2", "1/5"}

Front == 1

Init == /\ med0 = MedOf(Front) /\ kx = K /\ Ms = Id2 /\ Mp = Id2 /\ depth = 0 /\ hist = <<>>

Next == /\ depth < MaxLayers
        /\ \E i \in Transp \cup Evan : \E e \in (IF i \in Evan THEN Decays ELSE Phases) :
             /\ CrossWith(MedOf(i), N(e))
             /\ hist' = Append(hist, <<i, e>>)

Spec == Init /\ [][Next]_vars

Exits == {1, 2, 4, 5}

(* Energy: transparent exit shares the incident flux exactly, an           *)
(* evanescent exit reflects everything.                                    *)
Energy == \A i \in Exits : LET x == MedOf(i) IN
            /\ NEq(Refl(AmpS(x)) (+) TransS(x), 1)
            /\ NEq(Refl(AmpP(x)) (+) TransP(x), 1)
            /\ i \in Evan => NEq(Refl(AmpS(x)), 1) /\ NEq(Refl(AmpP(x)), 1)

Unimodular == NEq(Det2(Ms), 1) /\ NEq(Det2(Mp), 1)

(* The time-reversed characteristic matrix: light from the other side sees *)
(* the matrix with its diagonal exchanged (fields at -z, H reversed).      *)
Rev(M) == <<M[4], M[2], M[3], M[1]>>
RECURSIVE Prod(_, _, _)
Prod(h, k, pol) ==
  IF k = 0 THEN Id2
  ELSE LET m == MedOf(h[k][1]) q == IF pol = "s" THEN AdmS(m) ELSE AdmP(m)
       IN Mul2(LayerMatrix(q, N(h[k][2])), Prod(h, k - 1, pol))
(* Prod multiplies back to front = the stack turned over *)
Reversal == LET RS == Prod(hist, Len(hist), "s") RP == Prod(hist, Len(hist), "p")
                eq(A, B) == \A j \in 1..4 : NEq(A[j], B[j])
            IN eq(RS, Rev(Ms)) /\ eq(RP, Rev(Mp))

Reciprocity == \A i \in Transp : LET x == MedOf(i)
                  f == AmpS(x)
                  g == Amp(Rev(Ms), AdmS(x), AdmS(med0))
                  fp == AmpP(x)
                  gp == Amp(Rev(Mp), AdmP(x), AdmP(med0))
               IN /\ NEq(f.t (/) AdmS(med0), g.t (/) AdmS(x))
                  /\ NEq(fp.t (/) AdmP(med0), gp.t (/) AdmP(x))
                  /\ NEq(Abs2(f.r), Abs2(g.r))
                  /\ NEq(Abs2(fp.r), Abs2(gp.r))

(* A last layer of the exit material only delays the transmitted wave. *)
IndexMatched == \A i \in {2, 4} : \A e \in Phases : LET x == MedOf(i)
     M2 == Mul2(Ms, LayerMatrix(AdmS(x), N(e)))
     a == AmpS(x)
     b == Amp(M2, AdmS(med0), AdmS(x))
   IN NEq(a.r, b.r) /\ NEq(b.t, a.t (.) N(e))

(* Splitting a layer changes nothing; a zero layer is the identity. *)
SplittingLaw == \A i \in {2, 3} : \A e1, e2 \in {"3/5|4/5", "0|1", "1"} : LET q == AdmP(MedOf(i))
     A == Mul2(LayerMatrix(q, N(e1)), LayerMatrix(q, N(e2)))
     B == LayerMatrix(q, N(e1) (.) N(e2))
   IN \A j \in 1..4 : NEq(A[j], B[j])

ASSUME SplittingLaw

ExactArithmetic == \A j \in 1..4 : IsExact(Ms[j]) /\ IsExact(Mp[j])
=============================================================================
