-------------------------------- MODULE Light --------------------------------
(***************************************************************************)
(* The incident light of an experiment.  A polarisation is given by a      *)
(* Jones vector (p, s) or a Stokes vector; the experiment holds both.      *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC

Sq2(z) == Sq(Re(z)) (+) Sq(Im(z))
StokesOf(j) == <<Sq2(j[1]) (+) Sq2(j[2]), Sq2(j[1]) (-) Sq2(j[2]), Re(j[1] (.) Conj(j[2])) (.) 2, NNeg(Im(j[1] (.) Conj(j[2])) (.) 2)>>
PartNorm(s) == NSqrt((Sq(s[2]) (+) Sq(s[3])) (+) Sq(s[4]))
Polarised(s) == NLt(0, PartNorm(s)) /\ NLt(0, s[1])
(* the point on the Poincare sphere *)
Point(s) == LET n == PartNorm(s) IN <<s[2] (/) n, s[3] (/) n, s[4] (/) n>>
(* a Jones vector of a point: from the larger component, p real *)
JonesOf(s) ==
  LET q == Point(s) w == Cx(q[2], q[3]) IN
  IF NLt(q[1], 0)
  THEN LET m == NSqrt((N(1) (-) q[1]) (/) 2) IN IF NEq(w, 0) THEN <<N(0), N(1)>> ELSE <<NAbs(w) (/) (m (.) 2), (w (/) NAbs(w)) (.) m>>
  ELSE LET a == NSqrt((N(1) (+) q[1]) (/) 2) IN <<a, w (/) (a (.) 2)>>
Diagonal == <<N(1), N(0), N(1), N(0)>>
(* what is in force after a setting *)
Light(kind, v) == LET x == IF kind = "none" THEN Diagonal ELSE v IN
  IF kind = "jones" THEN [j |-> x, s |-> StokesOf(x)] ELSE [j |-> JonesOf(x), s |-> x]
SamePoint(p, q, tol) == \A i \in 1..3 : Close(p[i], q[i], tol, 0)
Agree(light, tol) == SamePoint(Point(StokesOf(light.j)), Point(light.s), tol)
(* ellipsometric ratio of a sample with ratio matrix M, and whether it is meaningful *)
Den(M, j) == (M[2][1] (.) j[1]) (+) (M[2][2] (.) j[2])
RhoFor(M, j) == ((M[1][1] (.) j[1]) (+) (M[1][2] (.) j[2])) (/) Den(M, j)
Sound(M, j) == NLt("1e-3" (.) NSqrt(Sq2(j[1]) (+) Sq2(j[2])), NAbs(Den(M, j)))
=============================================================================
