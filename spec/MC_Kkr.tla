-------------------------------- MODULE MC_Kkr --------------------------------
(* Spectra are built up point by point; the transform of every spectrum is     *)
(* what linearity, parity and the change of the axis demand.                   *)
EXTENDS Kkr, TLC, Json
CONSTANTS Lengths, MaxSteps, Amounts
VARIABLES n, t, hist
vars == <<n, t, hist>>

(* photon energies 2, 5/2, 3, ... *)
X == [i \in 1..n |-> N(2) (+) ((i - 1) (/) 2)]
Zero == [i \in 1..n |-> 0]
Init == n \in Lengths /\ t = Zero /\ hist = <<>>
Bump(j, c) == t' = [t EXCEPT ![j] = @ + c] /\ n' = n /\ hist' = Append(hist, <<j, c>>)
Next == Len(hist) < MaxSteps /\ \E j \in 1..n, c \in Amounts : Bump(j, c)
Spec == Init /\ [][Next]_vars
View == <<n, t>>

Unit(j) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
Opposite(i, j) == (i - j) % 2 = 1
Eq(a, b) == Close(a, b, "1e-50", "1e-50")
(* linear, and blind to the points of its own parity *)
Linear == \A k \in Kinds : \A i \in 1..n :
  Eq(Transform(k, t, X, i), NSumSeq([j \in 1..n |-> IF Opposite(i, j) THEN N(t[j]) (.) Transform(k, Unit(j), X, i) ELSE N(0)]))
Response == \A k \in Kinds : \A i, j \in 1..n : Opposite(i, j) =>
  Eq(Transform(k, Unit(j), X, i), (N(2) (/) NPi) (.) (Kernel(k, X[j], X[i])))     \* 2/pi K(x, xi) (2 h), here with h = 1/2
(* real to imaginary is the transposed map, with the opposite sign *)
Transposed == \A i, j \in 1..n : Opposite(i, j) =>
  Eq(Transform("re2im", Unit(j), X, i), NNeg(Transform("im2re", Unit(i), X, j)))
(* the other axis: x = 1/y, dx = -dy/y^2 *)
Axis == \A i, j \in 1..n : Opposite(i, j) =>
  LET y(m) == N(1) (/) X[m] IN
  /\ Eq(Kernel("im2re_reciprocal", y(j), y(i)), Kernel("im2re", X[j], X[i]) (.) Sq(X[j]))
  /\ Eq(Kernel("re2im_reciprocal", y(j), y(i)), Kernel("re2im", X[j], X[i]) (.) Sq(X[j]))
(* turning the axis over turns the answer over *)
Rev(s) == [i \in 1..n |-> s[n + 1 - i]]
Turned == \A k \in Kinds : \A i \in 1..n : Eq(Transform(k, Rev(t), Rev(X), n + 1 - i), Transform(k, t, X, i))
Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(t))
=============================================================================
