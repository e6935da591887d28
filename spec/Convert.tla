-------------------------------- MODULE Convert --------------------------------
(***************************************************************************)
(* Conversions of quantities of light, and of ellipsometric tables.        *)
(* A beam has a vacuum wavelength; it is known by one of its quantities.   *)
(***************************************************************************)
EXTENDS Mat, Units, Integers, Sequences, TLC

C == N("299792458")
PlanckEv == Force(N("6.62607015e-34") (/) "1.602176634e-19")                 \* eV / Hz
\* the quantities of a beam: nm, eV, Hz, 1/cm
Quantities == {"wavelength", "energy", "frequency", "wavenumber"}
Of(what, lam) ==
  CASE what = "wavelength" -> N(lam)
    [] what = "energy" -> (PlanckEv (.) C) (/) (N(lam) (.) "1e-9")
    [] what = "frequency" -> C (/) (N(lam) (.) "1e-9")
    [] what = "wavenumber" -> N(1) (/) (N(lam) (.) "1e-7")
\* conversions <<from, to>>; the first three work both ways
Conversions ==
  "conversion_wavelength_energy" :> {<<"wavelength", "energy">>, <<"energy", "wavelength">>}
  @@ "conversion_wavelength_frequency" :> {<<"wavelength", "frequency">>, <<"frequency", "wavelength">>}
  @@ "conversion_wavelength_wavenumber" :> {<<"wavelength", "wavenumber">>, <<"wavenumber", "wavelength">>}
  @@ "conversion_frequency2energy" :> {<<"frequency", "energy">>}
  @@ "conversion_energy2frequency" :> {<<"energy", "frequency">>}
\* what each conversion does with a number
Apply(fn, x) ==
  CASE fn = "conversion_wavelength_energy" -> (PlanckEv (.) C) (/) (N(x) (.) "1e-9")
    [] fn = "conversion_wavelength_frequency" -> C (/) (N(x) (.) "1e-9")
    [] fn = "conversion_wavelength_wavenumber" -> N("1e7") (/) x
    [] fn = "conversion_frequency2energy" -> N(x) (.) PlanckEv
    [] fn = "conversion_energy2frequency" -> N(x) (/) PlanckEv

(* permittivity of the bare substrate with this ratio at this angle (degrees) *)
PseudoEps(rho, angle) ==
  LET s == NSin(Deg(angle)) t == Tan(Deg(angle)) q == (N(1) (-) rho) (/) (N(1) (+) rho) IN
  Force((s (.) s) (.) (N(1) (+) ((t (.) t) (.) (q (.) q))))
(* ratio of a bare substrate by Fresnel's equations, rho = rp / rs with rp = rs at normal incidence up to sign *)
BareRho(eps, angle) ==
  LET c == NCos(Deg(angle)) w == NSqrt(N(eps) (-) Sq(NSin(Deg(angle)))) 
      rs == (c (-) w) (/) (c (+) w)
      rp == ((N(eps) (.) c) (-) w) (/) ((N(eps) (.) c) (+) w)
  IN Force(rp (/) rs)
(* Mueller matrix of a sample that only has psi and delta (degrees), first element 1 *)
IsoMueller(psi, delta) ==
  LET p == Deg(psi) d == Deg(delta) n == NCos(p (.) 2) c == NSin(p (.) 2) (.) NCos(d) s == NNeg(NSin(p (.) 2) (.) NSin(d)) IN
  Force(<< <<N(1), NNeg(n), N(0), N(0)>>, <<NNeg(n), N(1), N(0), N(0)>>, <<N(0), N(0), c, s>>, <<N(0), N(0), NNeg(s), c>> >>)
(* thickness of a quarter-wave layer *)
QuarterWave(n, lam) == N(lam) (/) (N(n) (.) 4)
=============================================================================
