------------------------------- MODULE MC_Mixing -------------------------------
(* Two constituents; the fraction of the guest grows step by step.             *)
EXTENDS Materials
CONSTANTS Values, Steps
VARIABLES eh, eg, k
vars == <<mats, eh, eg, k>>
Init == mats = <<>> /\ eh \in Values /\ eg \in Values /\ k = 0
Next == k < Steps /\ k' = k + 1 /\ UNCHANGED <<mats, eh, eg>>
Spec == Init /\ [][Next]_vars

F == N(k) (/) Steps
X(rule) == Mix(rule, eh, eg, F)
Passive(x) == NLeq("-1e-40", Im(x))
Positive(x) == IsReal(x) /\ NLt(0, x)
Ends == \A r \in Rules :
  /\ k = 0 => Close(X(r), eh, "1e-40", "1e-40")
  /\ k = Steps => (Close(X(r), eg, "1e-40", "1e-40") \/ ~IsNum(X(r)))
Same == eh = eg => \A r \in Rules : Close(X(r), eh, "1e-40", "1e-40")
Quadratic == \A i \in 1..2 : Close(BrResidual(eh, eg, F, BrRoots(eh, eg, F)[i]), 0, "1e-50", 0)
(* with absorption in both exactly one root is passive *)
OneRoot == (NLt(0, Im(eh)) /\ NLt(0, Im(eg))) =>
  LET r == BrRoots(eh, eg, F) IN (NLt(0, Im(r[1])) # NLt(0, Im(r[2])))
Mirror == \A r \in Rules \ {"looyenga"} : (NEq(Im(eh), 0) /\ NEq(Im(eg), 0)) \/ Close(Mix(r, Conj(eh), Conj(eg), F), Conj(X(r)), "1e-40", "1e-40") \/ ~IsNum(X(r))
PassiveMix == (NLeq(0, Im(eh)) /\ NLeq(0, Im(eg))) => \A r \in Rules : IsNum(X(r)) => Passive(X(r))
(* the bounds of Wiener, and the exchange of the two *)
Wiener == (Positive(eh) /\ Positive(eg)) => \A r \in Rules :
  /\ NLeq(X(r), Mean(eh, eg, F) (+) "1e-40")
  /\ NLeq((N(1) (/) Mean(N(1) (/) eh, N(1) (/) eg, F)) (-) "1e-40", X(r))
Exchange == \A r \in {"vca", "looyenga", "bruggeman"} : Close(X(r), Mix(r, eg, eh, N(1) (-) F), "1e-40", "1e-40")
                 \/ (r = "bruggeman" /\ Close(BrRoot(eh, eg, F), 0, "1e-5", 0))
(* weakly contrasting media: all rules agree to first order *)
Monotone == [][ (Positive(eh) /\ Positive(eg) /\ NLt(eh, eg)) =>
  \A r \in Rules : NLeq(Mix(r, eh, eg, N(k) (/) Steps), Mix(r, eh, eg, N(k') (/) Steps)) ]_vars
=============================================================================
