------------------------------- MODULE Result -------------------------------
(***************************************************************************)
(* A simulation result: two sequences of Jones matrices (one per           *)
(* wavelength), the power correction of the transmitted wave, the Jones    *)
(* vector of the incident light and the selected delta range.  Everything  *)
(* a result offers is a function of these.  The only transition is the     *)
(* selection of a delta range.                                             *)
(***************************************************************************)
EXTENDS Mat, TLC

VARIABLES jr, jt, pc, vec, range
resVars == <<jr, jt, pc, vec, range>>

(* --- delta ranges ------------------------------------------------------ *)
Folded == <<0, 180>>
LegalRange(lo, hi) == \/ <<lo, hi>> = Folded
                      \/ -360 <= lo /\ lo <= 0 /\ 0 <= hi /\ hi <= 360 /\ hi - lo = 360
FoldAngle(d) == LET m == NMod(d, 360) IN NMin(m, N(360) (-) m)
ShiftAngle(d, lo) == NMod(N(d) (-) lo, 360) (+) lo
InRange(d, lo, hi) == IF <<lo, hi>> = Folded THEN FoldAngle(d) ELSE ShiftAngle(d, lo)
Circular(x, y) == LET m == NMod(N(x) (-) y, 360) IN NMin(m, N(360) (-) m)

MakeResult(r, t, p, v) == jr' = r /\ jt' = t /\ pc' = p /\ vec' = v /\ range' = <<0 - 180, 180>>
Select(lo, hi, whole) ==      \* whole: both bounds are integers
  /\ IF whole /\ LegalRange(lo, hi) THEN range' = <<lo, hi>> ELSE UNCHANGED range
  /\ UNCHANGED <<jr, jt, pc, vec>>

(* --- representations of one Jones matrix -------------------------------- *)
Normed(J) == MScale(N(1) (/) J[2][2], J)
RhoOf(J, v) == ((J[1][1] (.) v[1]) (+) (J[1][2] (.) v[2])) (/) ((J[2][1] (.) v[1]) (+) (J[2][2] (.) v[2]))
MapM(Op(_), J) == Force([i \in 1..Len(J) |-> [j \in 1..Len(J[1]) |-> Op(J[i][j])]])
PsiAngle(x) == ToDeg(NAtan(NAbs(x)))
DeltaAngle(x) == N(0) (-) ToDeg(Arg(x))
Power(J) == MapM(Abs2, J)

R12 == N(1) (/) NSqrt(2)
Circ == MScale(R12, <<<<N(1), N(1)>>, <<I1, Conj(I1)>>>>)                       \* left, right circular light
CircBack == MScale(R12, <<<<N(0) (-) 1, N(0) (-) 1>>, <<Conj(I1), I1>>>>)       \* after a reflection
CircR(J) == MMul(MInv(CircBack), MMul(J, Circ))
CircT(J) == MMul(MInv(Circ), MMul(J, Circ))

(* Mueller matrix by the Pauli matrices belonging to S0..S3 = |p|2+|s|2, |p|2-|s|2, 2 Re p s*, -2 Im p s* *)
Pauli == Force(<< <<<<N(1), N(0)>>, <<N(0), N(1)>>>>,
                  <<<<N(1), N(0)>>, <<N(0), N(0) (-) 1>>>>,
                  <<<<N(0), N(1)>>, <<N(1), N(0)>>>>,
                  <<<<N(0), Conj(I1)>>, <<I1, N(0)>>>> >>)
Tr2(A) == A[1][1] (+) A[2][2]
MuellerRaw(J) == Force([i \in 1..4 |-> [j \in 1..4 |-> Re(Tr2(MMul(Pauli[i], MMul(J, MMul(Pauli[j], MConjT(J)))))) (/) 2]])
Mueller(J) == LET M == MuellerRaw(J) IN MScale(N(1) (/) M[1][1], M)

(* --- quantities: what each is at wavelength k ---------------------------- *)
\* in the folded range rho is reported on the side whose angle lies in the range
Side(x) == IF range = Folded /\ NLt(0, Im(x)) THEN Conj(x) ELSE x
One(x) == <<<<x>>>>
Matrix(what, k) ==
  CASE what = "jr" -> jr[k]
    [] what = "jt" -> jt[k]
    [] what = "jrc" -> CircR(jr[k])
    [] what = "jtc" -> CircT(jt[k])
    [] what = "R" -> Power(jr[k])
    [] what = "T" -> MScale(pc[k], Power(jt[k]))
    [] what = "Rc" -> Power(CircR(jr[k]))
    [] what = "Tc" -> MScale(pc[k], Power(CircT(jt[k])))
    [] what = "Rhalf" -> One(Tr2(Power(jr[k])) (/) 2)
    [] what = "Thalf" -> One((Tr2(Power(jt[k])) (.) pc[k]) (/) 2)
    [] what = "rhom" -> Normed(jr[k])
    [] what = "rhomt" -> Normed(jt[k])
    [] what = "psim" -> MapM(PsiAngle, Normed(jr[k]))
    [] what = "psimt" -> MapM(PsiAngle, Normed(jt[k]))
    [] what = "deltam" -> MapM(DeltaAngle, Normed(jr[k]))
    [] what = "deltamt" -> MapM(DeltaAngle, Normed(jt[k]))
    [] what = "rho" -> One(Side(RhoOf(jr[k], vec)))
    [] what = "rhot" -> One(Side(RhoOf(jt[k], vec)))
    [] what = "psi" -> One(PsiAngle(RhoOf(jr[k], vec)))
    [] what = "psit" -> One(PsiAngle(RhoOf(jt[k], vec)))
    [] what = "delta" -> One(DeltaAngle(RhoOf(jr[k], vec)))
    [] what = "deltat" -> One(DeltaAngle(RhoOf(jt[k], vec)))
    [] what = "mueller" -> Mueller(jr[k])
Angles == {"deltam", "deltamt", "delta", "deltat"}
\* the quantity whose argument an angle is; angles of numbers near zero mean nothing
Phasor(what, k) ==
  CASE what = "deltam" -> Normed(jr[k]) [] what = "deltamt" -> Normed(jt[k])
    [] what = "delta" -> One(RhoOf(jr[k], vec)) [] what = "deltat" -> One(RhoOf(jt[k], vec))

(* --- names --------------------------------------------------------------- *)
Whole == [rho |-> "rho", rho_t |-> "rhot", psi |-> "psi", psi_t |-> "psit", delta |-> "delta", delta_t |-> "deltat",
          rho_matrix |-> "rhom", rho_matrix_t |-> "rhomt", psi_matrix |-> "psim", psi_matrix_t |-> "psimt",
          delta_matrix |-> "deltam", delta_matrix_t |-> "deltamt", mueller_matrix |-> "mueller",
          jones_matrix_r |-> "jr", jones_matrix_t |-> "jt", jones_matrix_rc |-> "jrc", jones_matrix_tc |-> "jtc",
          R |-> "Rhalf", T |-> "Thalf", R_matrix |-> "R", T_matrix |-> "T", Rc_matrix |-> "Rc", Tc_matrix |-> "Tc",
          r |-> "jr", t |-> "jt", rc |-> "jrc", tc |-> "jtc", Rc |-> "Rc", Tc |-> "Tc"]
         @@ ("~psi" :> "psi") @@ ("~delta" :> "delta") @@ ("~rho" :> "rho")        \* Greek letters
Linear == [psi |-> "psim", delta |-> "deltam", rho |-> "rhom", r |-> "jr", t |-> "jt", R |-> "R", T |-> "T",
           psi_matrix |-> "psim", delta_matrix |-> "deltam", rho_matrix |-> "rhom",
           psi_matrix_t |-> "psimt", delta_matrix_t |-> "deltamt", rho_matrix_t |-> "rhomt",
           jones_matrix_r |-> "jr", jones_matrix_t |-> "jt", R_matrix |-> "R", T_matrix |-> "T"]
          @@ ("~psi" :> "psim") @@ ("~delta" :> "deltam") @@ ("~rho" :> "rhom")
Circular4 == [rc |-> "jrc", tc |-> "jtc", Rc |-> "Rc", Tc |-> "Tc", r |-> "jrc", t |-> "jtc", R |-> "Rc", T |-> "Tc",
              jones_matrix_rc |-> "jrc", jones_matrix_tc |-> "jtc", Rc_matrix |-> "Rc", Tc_matrix |-> "Tc"]
Digits == [rc |-> "jrc", tc |-> "jtc", Rc |-> "Rc", Tc |-> "Tc"]
LinIx == [p |-> 1, s |-> 2]
CirIx == [L |-> 1, R |-> 2]
NumIx == ("1" :> 1) @@ ("2" :> 2)
NumIx4 == NumIx @@ ("3" :> 3) @@ ("4" :> 4)
El(q, i, j) == [q |-> q, i |-> i, j |-> j]
Element(tab, ix) ==     \* first index: outgoing wave
  LET D == {<<b, a, c>> : b \in DOMAIN tab, a \in DOMAIN ix, c \in DOMAIN ix}
      Nm(d) == d[1] \o "_" \o d[2] \o d[3]
  IN [n \in {Nm(d) : d \in D} |-> LET d == CHOOSE d \in D : Nm(d) = n IN El(tab[d[1]], ix[d[2]], ix[d[3]])]
Names ==
  Force([n \in DOMAIN Whole |-> El(Whole[n], 0, 0)]
        @@ Element(Linear, LinIx) @@ Element(Linear, NumIx) @@ Element(Circular4, CirIx) @@ Element(Digits, NumIx)
        @@ Element([mueller_matrix |-> "mueller"], NumIx4))
=============================================================================
