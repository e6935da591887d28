------------------------------ MODULE Dispersion ------------------------------
(***************************************************************************)
(* The dispersion models: permittivity (or refractive index) as a function *)
(* of the wavelength in nm.  A dispersion is a record                      *)
(*   cls, single (record of parameters), rep (sequence of records)         *)
(***************************************************************************)
EXTENDS Kkr, TLC

HC == Force((N("6.62607015e-34") (.) "299792458") (/) ("1.602176634e-19" (.) "1e-9"))     \* eV nm
HBar == Force(N("6.62607015e-34") (/) ("1.602176634e-19" (.) (2 (.) NPi)))               \* eV s
Eps0 == N("8.8541878188e-12")
Energy(lam) == HC (/) lam

IndexModels == {"ConstantRefractiveIndex", "Cauchy", "CauchyCustomExponent", "CauchyUrbach", "Table", "IndexSum"}
Models == IndexModels \cup {"EpsilonInf", "Sellmeier", "SellmeierCustomExponent", "Polynomial", "LorentzEnergy", "LorentzLambda", "DrudeEnergy",
  "DrudeResistivity", "Poles", "Gaussian", "TaucLorentz", "CodyLorentz", "Tanguy", "TableEpsilon", "PseudoDielectricFunction", "Sum"}

(* x ** e for a positive x and real e *)
Pow(x, e) == IF NEq(e, NFloor(e)) /\ NLeq(NAbs(e), 64) THEN NPow(N(x), NToInt(e)) ELSE NExp(N(e) (.) NLn(x))
SumRep(d, Op(_)) == NSumSeq([j \in 1..Len(d.rep) |-> Op(d.rep[j])])
A3(a, b, c) == (N(a) (+) b) (+) c
M3(a, b, c) == (N(a) (.) b) (.) c

Cauchy(s, lam) ==
  LET i2 == NPow(N(lam), -2) i4 == NPow(N(lam), -4) IN
  A3(s.n0, M3(100, s.n1, i2), M3(10000000, s.n2, i4)) (+) (I1 (.) A3(s.k0, M3(100, s.k1, i2), M3(10000000, s.k2, i4)))
CauchyUrbach(s, E) ==
  A3(s.n0, N(s.B) (.) Sq(E), N(s.C) (.) NPow(E, 4)) (+) M3(I1, s.D, NExp((E (-) s.Eg) (/) s.Eu))

Sellmeier(d, lam) == LET m2 == Sq(N(lam) (/) 1000) IN N(1) (+) SumRep(d, LAMBDA c : (N(c.A) (.) m2) (/) (m2 (-) c.B))
SellmeierCustom(d, lam) == LET m == N(lam) (/) 1000 IN
  SumRep(d, LAMBDA c : (N(c.A) (.) Pow(m, c.e_A)) (/) (Sq(m) (-) Pow(c.B, c.e_B)))

LorentzEnergy(d, E) == N(1) (+) SumRep(d, LAMBDA c : N(c.A) (/) ((Sq(c.E) (-) Sq(E)) (-) M3(I1, c.gamma, E)))
LorentzLambda(d, lam) == N(1) (+) SumRep(d, LAMBDA c : (N(c.A) (.) Sq(lam)) (/) ((Sq(lam) (-) Sq(c.lambda_r)) (-) M3(I1, c.gamma, lam)))
DrudeEnergy(s, E) == N(s.A) (/) (Sq(E) (-) M3(I1, s.gamma, E))
DrudeResistivity(s, E) == Sq(HBar) (/) M3(Eps0 (.) "0.01", s.rho_opt, (N(s.tau) (.) Sq(E)) (-) M3(I1, HBar, E))
Poles(s, E) == (N(s.A_ir) (/) Sq(E)) (+) (N(s.A_uv) (/) (Sq(s.E_uv) (-) Sq(E)))

GaussianOne(c, E) ==
  LET f == (2 (.) NSqrt(NLn(2))) (/) c.sigma
      p == f (.) (E (+) c.E)  m == f (.) (E (-) c.E)
      Bell(x) == NExp(NNeg(Sq(x)))
  IN Cx(((2 (.) N(c.A)) (/) NSqrt(NPi)) (.) (NDawson(p) (-) NDawson(m)), N(c.A) (.) (Bell(m) (-) Bell(p)))

(* Jellison and Modine.  With qq = alpha^2 = 4 E0^2 - C^2 of any sign:                       *)
(*   LnTerm = ln((q + alpha g) / (q - alpha g)) / alpha                                       *)
(*   AtTerm = atan((2 g + alpha) / C) + atan((2 g - alpha) / C)                               *)
(*   PiTerm = (pi + 2 atan(2 (gam2 - g^2) / (alpha C))) / alpha                               *)
(* continued to imaginary alpha, where they are real, and to alpha = 0; the logarithms of     *)
(* |E - g| are collected, so that E = g is no exception                                       *)
TLEps2(Eg, c, E) ==
  IF NLeq(E, Eg) THEN N(0)
  ELSE (M3(c.A, c.E, c.C) (.) Sq(E (-) Eg)) (/) ((Sq(Sq(E) (-) Sq(c.E)) (+) (Sq(c.C) (.) Sq(E))) (.) E)
TLLn(qq, q, g) ==
  IF NEq(qq, 0) THEN (2 (.) g) (/) q
  ELSE LET a == NSqrt(NAbs(qq)) IN
       IF NLeq(0, qq) THEN NLn((q (+) (a (.) g)) (/) (q (-) (a (.) g))) (/) a ELSE (2 (.) NAtan2(a (.) g, q)) (/) a
TLAt(qq, g, C) ==
  LET a == NSqrt(NAbs(qq)) IN
  IF NLeq(0, qq) THEN NAtan(((2 (.) g) (+) a) (/) C) (+) NAtan(((2 (.) g) (-) a) (/) C)
  ELSE LET u == (2 (.) g) (/) C y == a (/) C IN NAtan2(u, N(1) (-) y) (+) NAtan2(u, N(1) (+) y)
TLPi(qq, h, C) ==      \* h = gam2 - g^2, negative unless qq > 0
  IF NEq(qq, 0) THEN C (/) NAbs(h)
  ELSE LET a == NSqrt(NAbs(qq)) IN
       IF NLeq(0, qq) THEN (NPi (+) (2 (.) NAtan((2 (.) h) (/) (a (.) C)))) (/) a
       ELSE LET t == (2 (.) NAbs(h)) (/) (a (.) C) IN NLn((t (+) 1) (/) (t (-) 1)) (/) a
TLEps1(eg, c, E) ==
  LET g == N(eg) E0 == N(c.E) C == N(c.C) A == N(c.A)
      gam2 == Sq(E0) (-) (Sq(C) (/) 2)
      qq == (4 (.) Sq(E0)) (-) Sq(C)
      alnn == ((((Sq(g) (-) Sq(E0)) (.) Sq(E)) (+) (Sq(g) (.) Sq(C))) (-) (Sq(E0) (.) (Sq(E0) (+) (3 (.) Sq(g)))))
      aat == (((Sq(E) (-) Sq(E0)) (.) (Sq(E0) (+) Sq(g))) (+) (Sq(g) (.) Sq(C)))
      z4 == Sq(Sq(E) (-) Sq(E0)) (+) (Sq(C) (.) Sq(E))
      pz == NPi (.) z4
      t1 == ((M3(A, C, alnn)) (/) (M3(2, pz, E0))) (.) TLLn(qq, Sq(E0) (+) Sq(g), g)
      t2 == ((A (.) aat) (/) (pz (.) E0)) (.) (NPi (-) TLAt(qq, g, C))
      t3 == ((M3(2 (.) A, E0, g)) (/) pz) (.) ((Sq(E) (-) gam2) (.) TLPi(qq, gam2 (-) Sq(g), C))
      ln == IF NEq(E, g) THEN N(0) ELSE Sq(E (-) g) (.) NLn(NAbs(E (-) g))
      t4 == (M3(A, E0, C) (/) (pz (.) E)) (.) (ln (-) (Sq(E (+) g) (.) NLn(E (+) g)))
      t5 == (M3(A (.) E0, C, g) (/) pz) (.) NLn(Sq(Sq(E0) (-) Sq(g)) (+) (Sq(g) (.) Sq(C)))
  IN NSumSeq(<<t1, NNeg(t2), t3, NNeg(t4), NNeg(t5)>>)

(* Ferlauto et al.; the real part is the Maclaurin transform on the fixed grid 50 nm .. 10 um *)
CLEps2(s, e) ==
  LET E == N(e)
      G(x) == Sq(x (-) s.Eg) (/) (Sq(x (-) s.Eg) (+) Sq(s.Ep))
      L(x) == (M3(s.A, s.E0, s.gamma) (.) x) (/) (Sq(Sq(x) (-) Sq(s.E0)) (+) (Sq(s.gamma) (.) Sq(x)))
  IN IF NLeq(E, s.Et) THEN (((N(s.Et) (.) G(N(s.Et))) (.) L(N(s.Et))) (/) E) (.) NExp((E (-) s.Et) (/) s.Eu)
     ELSE G(E) (.) L(E)
CLGrid == Force([j \in 1..1000 |-> N(50) (+) (((j - 1) (.) N(9950)) (/) 999)])
CLTable(s) == Force([j \in 1..1000 |-> Approx(CLEps2(s, Energy(CLGrid[j])))])
CLEps1(s, t, lam) ==
  LET j == NToInt((999 (.) (N(lam) (-) 50)) (/) 9950) + 1
      k == IF j > 999 THEN 999 ELSE j
      f == (N(lam) (-) CLGrid[k]) (/) (CLGrid[k + 1] (-) CLGrid[k])
      a == Transform("im2re_reciprocal", t, CLGrid, k)
      b == Transform("im2re_reciprocal", t, CLGrid, k + 1)
  IN ((N(1) (-) f) (.) a) (+) (f (.) b)

(* Tanguy: Wannier excitons in fractional dimension *)
Cot(x) == NCos(x) (/) NSin(x)
TGg(x, d) ==
  IF NEq(d, 2) THEN (2 (.) NLn(x)) (-) (2 (.) NDigamma(N("1/2") (-) x))
  ELSE IF NEq(d, 3) THEN NSumSeq(<<2 (.) NLn(x), N(0) (-) (2 (.) NDigamma(N(1) (-) x)), N(0) (-) (N(1) (/) x)>>)
  ELSE LET h == (N(d) (-) 1) (/) 2
           a == (2 (.) NPi) (.) NGamma(h (+) x)
           b == M3(Sq(NGamma(h)), NGamma((N(1) (-) h) (+) x), NExp((N(d) (-) 2) (.) NLn(x)))
           c == Cot(NPi (.) (h (-) x)) (-) Cot(NPi (.) (2 (.) h))
       IN (a (/) b) (.) c
Tanguy(s, e) ==
  LET E == N(e) z == E (+) (I1 (.) s.gamma)
      xi(w) == NSqrt(N(s.R) (/) (N(s.Eg) (-) w))
      f == (N(s.A) (.) NExp(((N(s.d) (/) 2) (-) 1) (.) NLn(s.R))) (/) Sq(z)
      gs == (TGg(xi(z), s.d) (+) TGg(xi(NNeg(z)), s.d)) (-) (2 (.) TGg(xi(N(0)), s.d))
  IN NSumSeq(<<1, N(s.a) (/) (N(s.b) (-) Sq(E)), f (.) gs>>)

(* tables: linear between the two nodes around lam; rows in any order *)
\* in the sequence of nodes x: the positions just below and above lam
Below(x, lam) == CHOOSE i \in 1..Len(x) : NLeq(x[i], lam) /\ \A j \in 1..Len(x) : NLeq(x[j], lam) => NLeq(x[j], x[i])
Above(x, lam) == CHOOSE i \in 1..Len(x) : NLeq(lam, x[i]) /\ \A j \in 1..Len(x) : NLeq(lam, x[j]) => NLeq(x[i], x[j])
Covers(x, lam) == (\E i \in 1..Len(x) : NLeq(x[i], lam)) /\ (\E i \in 1..Len(x) : NLeq(lam, x[i]))
Lookup(x, y, lam) ==
  LET i == Below(x, lam) k == Above(x, lam) IN
  IF NEq(x[i], x[k]) THEN N(y[i])
  ELSE N(y[i]) (+) (((N(lam) (-) x[i]) (/) (N(x[k]) (-) x[i])) (.) (N(y[k]) (-) y[i]))

RhoPD(psi, delta) == Tan(Deg(psi)) (.) NExp(N("0|-1") (.) Deg(delta))
PseudoEps(angle, rho) ==
  LET t == Deg(angle) IN Sq(NSin(t)) (.) (N(1) (+) (Sq(Tan(t)) (.) Sq((N(1) (-) rho) (/) (N(1) (+) rho))))

RECURSIVE Value(_, _)
(* permittivity, for index models the refractive index *)
Value(d, w) ==
  LET lam == N(w) s == d.single E == Energy(lam) IN
  CASE d.cls = "ConstantRefractiveIndex" -> N(s.n)
    [] d.cls = "EpsilonInf" -> N(s.eps)
    [] d.cls = "Cauchy" -> Cauchy(s, lam)
    [] d.cls = "CauchyCustomExponent" -> N(s.n0) (+) SumRep(d, LAMBDA c : N(c.f) (.) Pow(lam, c.e))
    [] d.cls = "CauchyUrbach" -> CauchyUrbach(s, E)
    [] d.cls = "Sellmeier" -> Sellmeier(d, lam)
    [] d.cls = "SellmeierCustomExponent" -> SellmeierCustom(d, lam)
    [] d.cls = "Polynomial" -> N(s.e0) (+) SumRep(d, LAMBDA c : N(c.f) (.) Pow(lam, c.e))
    [] d.cls = "LorentzEnergy" -> LorentzEnergy(d, E)
    [] d.cls = "LorentzLambda" -> LorentzLambda(d, lam)
    [] d.cls = "DrudeEnergy" -> DrudeEnergy(s, E)
    [] d.cls = "DrudeResistivity" -> DrudeResistivity(s, E)
    [] d.cls = "Poles" -> Poles(s, E)
    [] d.cls = "Gaussian" -> SumRep(d, LAMBDA c : GaussianOne(c, E))
    [] d.cls = "TaucLorentz" -> SumRep(d, LAMBDA c : Cx(TLEps1(s.Eg, c, E), TLEps2(s.Eg, c, E)))
    [] d.cls = "CodyLorentz" -> Cx(CLEps1(s, IF "grid" \in DOMAIN d THEN d.grid ELSE CLTable(s), lam), CLEps2(s, E))
    [] d.cls = "Tanguy" -> Tanguy(s, E)
    [] d.cls \in {"Table", "TableEpsilon"} -> Lookup(d.x, d.y, lam)
    [] d.cls = "PseudoDielectricFunction" -> PseudoEps(s.angle, RhoPD(Lookup(d.x, d.psi, lam), Lookup(d.x, d.delta, lam)))    \* at nodes
    [] d.cls \in {"Sum", "IndexSum"} -> NSumSeq([j \in 1..Len(d.parts) |-> Value(d.parts[j], lam)])

Eps(d, w) == IF d.cls \in IndexModels THEN Sq(Value(d, w)) ELSE Value(d, w)
Index(d, w) == IF d.cls \in IndexModels THEN Value(d, w) ELSE NSqrt(Value(d, w))
=============================================================================
