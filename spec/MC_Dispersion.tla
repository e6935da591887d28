----------------------------- MODULE MC_Dispersion -----------------------------
(* Physical laws of the models on a family of parameters: causality (the real *)
(* part is the Kramers-Kronig transform of the imaginary part), passivity,    *)
(* the branch of the index, superposition, limits.  One state per model and   *)
(* wavelength; a step goes on to the next wavelength.                         *)
EXTENDS Dispersion, FiniteSets

Disp(c, s, r) == [cls |-> c, single |-> s, rep |-> r]
None == [none |-> 0]
TLc == [A |-> "60", E |-> "4", C |-> "2"]
Family ==
  << Disp("LorentzEnergy", None, <<[A |-> "20", E |-> "4", gamma |-> "3/2"], [A |-> "3", E |-> "7", gamma |-> "1"]>>),
     Disp("Gaussian", None, <<[A |-> "3", E |-> "4", sigma |-> "2"]>>),
     Disp("TaucLorentz", [Eg |-> "5/2"], <<TLc>>),
     Disp("TaucLorentz", [Eg |-> "3/2"], <<TLc, [A |-> "30", E |-> "6", C |-> "3"]>>),
     Disp("TaucLorentz", [Eg |-> "3/2"], <<[A |-> "30", E |-> "2", C |-> "7/2"]>>),
     Disp("TaucLorentz", [Eg |-> "3/2"], <<[A |-> "30", E |-> "2", C |-> "4"]>>),
     Disp("TaucLorentz", [Eg |-> "3/2"], <<[A |-> "30", E |-> "2", C |-> "5"], [A |-> "10", E |-> "5/2", C |-> "9"]>>),
     Disp("CodyLorentz", [Eg |-> "1.6", A |-> "100", Et |-> "1.8", gamma |-> "2.4", Ep |-> "0.8", E0 |-> "3.6", Eu |-> "0.05"], <<>>),
     Disp("Tanguy", [A |-> "6", d |-> "3", gamma |-> "0.4", R |-> "0.3", Eg |-> "3", a |-> "0", b |-> "0"], <<>>),
     Disp("Tanguy", [A |-> "6", d |-> "2", gamma |-> "0.4", R |-> "0.3", Eg |-> "3", a |-> "0", b |-> "0"], <<>>),
     Disp("Tanguy", [A |-> "6", d |-> "2.5", gamma |-> "0.4", R |-> "0.3", Eg |-> "3", a |-> "0", b |-> "0"], <<>>),
     Disp("DrudeResistivity", [rho_opt |-> "1e-4", tau |-> "1e-15"], <<>>),
     Disp("Cauchy", [n0 |-> "1.5", n1 |-> "100", n2 |-> "5", k0 |-> "0.1", k1 |-> "3", k2 |-> "1"], <<>>),
     Disp("CauchyUrbach", [n0 |-> "1.5", B |-> "0.02", C |-> "0.001", D |-> "0.1", Eg |-> "3", Eu |-> "0.5"], <<>>),
     Disp("CauchyCustomExponent", [n0 |-> "1.5"], <<[f |-> "10000", e |-> "-2"], [f |-> "7", e |-> "-1/2"]>>),
     Disp("Polynomial", [e0 |-> "2"], <<[f |-> "0.001", e |-> "1"], [f |-> "3", e |-> "-1/3"]>>),
     Disp("Sellmeier", None, <<[A |-> "1.2", B |-> "0.01"], [A |-> "0.5", B |-> "2"]>>),
     Disp("LorentzLambda", None, <<[A |-> "1.2", lambda_r |-> "300", gamma |-> "20"]>>),
     Disp("Poles", [A_ir |-> "0.3", A_uv |-> "90", E_uv |-> "9"], <<>>),
     [cls |-> "Table", x |-> <<"800", "200", "500">>, y |-> <<"2|1", "1", "3|0.5">>, single |-> None, rep |-> <<>>] >>
Waves == <<"300", "620", "755">>
Causal == {"LorentzEnergy", "Gaussian", "TaucLorentz", "Tanguy"}

VARIABLES m, w
vars == <<m, w>>
Init == m \in 1..Len(Family) /\ w = 1
Next == w < Len(Waves) /\ w' = w + 1 /\ m' = m
Spec == Init /\ [][Next]_vars

dd == Family[m]
lam == Waves[w]
At(E) == HC (/) E
(* P int 2/pi x eps2(x) / (x^2 - E^2) dx on midpoints around E; the models decay like 1/x^3 or faster above *)
KK(x0, E, h, n) ==
  LET x(k) == E (+) (h (.) (N(k) (-) "1/2"))
      lo == 1 - NToInt((E (/) h) (+) "1/2")
      term(k) == (x(k) (.) Im(Approx(Value(x0, At(x(k)))))) (/) (Sq(x(k)) (-) Sq(E))
      ks == [i \in 1..(n - lo + 1) |-> term(lo + i - 1)]
  IN ((2 (.) h) (/) NPi) (.) NSumSeq(ks)
Inf(x0) == IF x0.cls \in {"LorentzEnergy", "Tanguy"} THEN N(1) ELSE N(0)
Chk(ok, t) == IF ok THEN TRUE ELSE PrintT(t) /\ FALSE
Causality ==
  dd.cls \in Causal =>
    LET E == Approx(Energy(lam)) v == Re(Value(dd, lam)) (-) Inf(dd) k == KK(dd, E, N("1/5"), 150)
    IN Chk(Close(k, v, "0.04", "0.04"), <<m, lam, Show(v), Show(k)>>)
Passive == dd.cls \in Causal \cup {"CodyLorentz", "DrudeResistivity", "Cauchy", "CauchyUrbach", "LorentzLambda", "Table"} => NLeq(0, Im(Eps(dd, lam)))
RootBranch == LET n == Index(dd, lam) IN NLeq(0, Re(n)) /\ Close(Sq(n), Eps(dd, lam), "1e-50", 0)
(* several oscillators: each adds what it adds alone *)
Superposition ==
  dd.cls \in Models /\ dd.rep # <<>> =>
    LET none == Value([dd EXCEPT !.rep = <<>>], lam)
        part(j) == Value([dd EXCEPT !.rep = <<dd.rep[j]>>], lam) (-) none
    IN Close(Value(dd, lam), none (+) NSumSeq([j \in 1..Len(dd.rep) |-> part(j)]), "1e-50", 0)
(* the fractional-dimensional exciton tends to the three-dimensional one, and to 1/pi of the two-dimensional
   one (the references normalise that case differently) *)
TanguyLimit ==
  dd.cls = "Tanguy" /\ dd.single.d \in {"2", "3"} =>
    LET v == Value(dd, lam) u == Value([dd EXCEPT !.single.d = NSub(dd.single.d, "1e-8")], lam)
    IN Close(u, IF dd.single.d = "3" THEN v ELSE N(1) (+) ((v (-) 1) (/) NPi), "1e-6", "1e-6")
Stays == \A i \in 1..3 : dd.cls = "Table" => NEq(Value(dd, dd.x[i]), dd.y[i])
=============================================================================
