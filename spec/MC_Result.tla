------------------------------ MODULE MC_Result ------------------------------
(* Delta selections on a family of results, and the laws of their quantities. *)
EXTENDS Result, FiniteSets, Json
CONSTANTS MaxSteps
VARIABLE hist
vars == <<resVars, hist>>

c(x, y) == Cx(x, y)
Family == << <<<<c("3/5", "4/5"), c(0, "1/10")>>, <<c("1/10", 0), c("1/2", "1/2")>>>>,
             <<<<c("1/2", 0), c(0, 0)>>, <<c(0, 0), c("-1/2", 0)>>>>,
             <<<<c(0, "-1/3"), c("1/4", "1/4")>>, <<c(0, "1/5"), c("-3/5", "1/5")>>>> >>
Vectors == << <<N(1), N(1)>>, <<N(1), I1>>, <<c(0, 1), c("1/2", 0)>> >>

Legal == {<<0, 180>>} \cup {<<lo, lo + 360>> : lo \in {0 - 360, 0 - 270, 0 - 180, 0 - 90, 0 - 1, 0}}
Illegal == {<<0, 90>>, <<0 - 180, 0>>, <<0 - 90, 90>>, <<10, 370>>, <<0 - 370, 0 - 10>>, <<180, 0 - 180>>, <<0, 0>>, <<0 - 180, 181>>}
Asked == {"delta", "delta_matrix", "rho", "psi", "delta_t", "~delta_ps", "delta_matrix_t", "psi_matrix", "rho_t", "mueller_matrix", "delta_sp", "r", "T", "rc_LR", "R"}

Init == /\ \E a, b \in 1..Len(Family), v \in 1..Len(Vectors) :
             /\ jr = <<Family[a], Family[b]>> /\ jt = <<Family[b], Family[a]>> /\ vec = Vectors[v]
        /\ pc = <<N(1), N("3/2")>> /\ range = <<0 - 180, 180>> /\ hist = <<>>

Step(h) == Len(hist) < MaxSteps /\ hist' = Append(hist, h)
Next == \/ \E r \in Legal \cup Illegal, w \in BOOLEAN :
             /\ (w \/ r \in Legal)
             /\ Select(r[1], r[2], w) /\ Step(<<"select", r[1], r[2], w>>)
        \/ \E n \in Asked : Step(<<"ask", n>>) /\ UNCHANGED resVars
Spec == Init /\ [][Next]_vars
View == <<resVars, Len(hist)>>

Ks == {1, 2}
T0 == "1e-50"
RangeLegal == LegalRange(range[1], range[2])
AmplitudesStay == jr[1] \in {Family[i] : i \in 1..Len(Family)}
\* the angle reported in the range is inside, congruent (or folded), and equal after a detour
DeltaLaws == \A k \in Ks : LET d == Matrix("delta", k)[1][1] x == InRange(d, range[1], range[2]) IN
  /\ NLeq(range[1], x) /\ NLeq(x, range[2])
  /\ IF range = Folded THEN NLeq(Circular(x, d), T0) \/ NLeq(Circular(x, N(0) (-) d), T0) ELSE NLeq(Circular(x, d), T0)
  /\ \A r \in Legal \ {Folded} : NLeq(Circular(InRange(InRange(d, r[1], r[2]), range[1], range[2]), x), T0)
  /\ NLeq(Circular(InRange(x, range[1], range[2]), x), T0)
\* rho as reported is tan psi exp(-i delta) with delta as reported
RhoIsPsiDelta == \A k \in Ks :
  LET d == InRange(Matrix("delta", k)[1][1], range[1], range[2]) p == Matrix("psi", k)[1][1]
  IN Close(Matrix("rho", k)[1][1], Tan(Deg(p)) (.) NExp(Cx(0, -1) (.) Deg(d)), T0, 0)
\* circular bases are unitary: the power of all channels together is the same
CircularPower == \A k \in Ks : \A p \in {<<"R", "Rc">>, <<"T", "Tc">>} :
  LET A == Matrix(p[1], k) B == Matrix(p[2], k)
      S(M) == NSumSeq(<<M[1][1], M[1][2], M[2][1], M[2][2]>>) IN Close(S(A), S(B), T0, 0)
\* the Mueller matrix of a Jones matrix is pure, and is that of the ratio matrix
MuellerPure == \A k \in Ks :
  LET M == Mueller(jr[k]) IN
  /\ NEq(M[1][1], 1)
  /\ Close(NSumSeq([i \in 1..16 |-> Sq(M[((i - 1) \div 4) + 1][((i - 1) % 4) + 1])]), 4, T0, 0)
  /\ MClose(M, Mueller(Normed(jr[k])), T0, 0)
\* and products of Jones matrices have products of Mueller matrices
MuellerProduct ==
  MClose(MuellerRaw(MMul(jr[1], jr[2])), MMul(MuellerRaw(jr[1]), MuellerRaw(jr[2])), T0, 0)
\* polarisation carried by the Mueller matrix: first column is the Stokes vector of both outgoing waves together
MuellerDepol == \A k \in Ks : LET M == MuellerRaw(jr[k]) IN Close(M[1][1], Tr2(MMul(jr[k], MConjT(jr[k]))) (/) 2, T0, 0)
NamesFunctional == Cardinality(DOMAIN Names) > 150

Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))
=============================================================================
