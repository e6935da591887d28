--------------------------------- MODULE Mat ---------------------------------
(* Matrices of numbers, as sequences of rows.  The four basic operators are  *)
(* evaluated natively (java/Mat.java); MC_Mat checks that the native results *)
(* are those of the definitions below.                                       *)
EXTENDS Num, Integers, Sequences

Rows(A) == Len(A)
Cols(A) == Len(A[1])
MMulDef(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> NSumSeq([k \in 1..Rows(B) |-> A[i][k] (.) B[k][j]])]]
MAddDef(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> A[i][j] (+) B[i][j]]]
MScaleDef(c, A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> c (.) A[i][j]]]

MMul(A, B) == MMulDef(A, B)
MAdd(A, B) == MAddDef(A, B)
MScale(c, A) == MScaleDef(c, A)
MInv(A) == CHOOSE B : MMul(A, B) = [i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> IF i = j THEN N(1) ELSE N(0)]]

MId(n) == Force([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN N(1) ELSE N(0)]])
MT(A) == Force([j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]])
MConjT(A) == Force([j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> Conj(A[i][j])]])
MSub(A, B) == MAdd(A, MScale(-1, B))
MNum(A) == Force([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> N(A[i][j])]])

(* largest modulus of an entry *)
RECURSIVE MaxOf(_, _, _)
MaxOf(s, i, m) == IF i > Len(s) THEN m ELSE MaxOf(s, i + 1, NMax(m, s[i]))
MMax(A) == MaxOf(Force([i \in 1..Rows(A) |-> MaxOf(Force([j \in 1..Cols(A) |-> NAbs(A[i][j])]), 1, N(0))]), 1, N(0))
MEq(A, B) == Rows(A) = Rows(B) /\ Cols(A) = Cols(B) /\ \A i \in 1..Rows(A), j \in 1..Cols(A) : NEq(A[i][j], B[i][j])
MClose(A, B, at, rt) == \A i \in 1..Rows(A), j \in 1..Cols(A) : Close(A[i][j], B[i][j], at, rt)

(* Matrix exponential: halve until small, sum the series, square back. *)
RECURSIVE Halvings(_, _)
Halvings(m, k) == IF NLeq(m, "1/16") \/ k > 60 THEN k ELSE Halvings(m (/) 2, k + 1)
RECURSIVE ExpSeries(_, _, _, _)
ExpSeries(A, k, term, acc) ==
  IF k > 30 THEN acc
  ELSE LET t == MScale(NDiv(1, k), MMul(term, A)) IN ExpSeries(A, k + 1, t, MAdd(acc, t))
RECURSIVE Squared(_, _)
Squared(A, k) == IF k = 0 THEN A ELSE Squared(MMul(A, A), k - 1)
MApprox(A) == Force([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> Approx(A[i][j])]])
MExp(A) ==
  LET k == Halvings(MMax(A), 0)
      I == MId(Rows(A))
  IN Squared(ExpSeries(MApprox(MScale(NPow("1/2", k), A)), 1, I, I), k)

(* Matrix sign function by Newton's iteration (no eigenvalue on the imaginary axis). *)
RECURSIVE SignIter(_, _)
SignIter(X, k) ==
  LET Y == MScale("1/2", MAdd(X, MInv(X)))
  IN IF k = 0 \/ MClose(Y, X, "1e-50", "1e-50") THEN Y ELSE SignIter(Y, k - 1)
MSign(A) == SignIter(MApprox(A), 40)
=============================================================================
