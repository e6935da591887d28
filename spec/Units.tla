-------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Lengths, photon energies, frequencies and wavenumbers of light: the     *)
(* vacuum relations with the exact SI constants h, c, e.                   *)
(*   a length unit u:      x = lambda/nm * Lengths[u]                      *)
(*   an inverse unit u:    x = Inverses[u] / (lambda/nm)                   *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC

HC == Force((N("6.62607015e-34") (.) "299792458") (/) ("1.602176634e-19" (.) "1e-9"))     \* eV nm
Lengths == "nm" :> N(1) @@ "nanometer" :> N(1) @@ "um" :> N("1e-3") @@ "micrometer" :> N("1e-3") @@ "angstrom" :> N(10) @@ "Angstroms" :> N(10)
        @@ "m" :> N("1e-9") @@ "meter" :> N("1e-9") @@ "cm" :> N("1e-7") @@ "mm" :> N("1e-6") @@ "pm" :> N(1000)
Energies == "eV" :> HC @@ "electron_volt" :> HC @@ "meV" :> (HC (.) 1000) @@ "keV" :> (HC (/) 1000) @@ "J" :> (HC (.) "1.602176634e-19") @@ "joule" :> (HC (.) "1.602176634e-19")
(* wavenumbers and frequencies *)
Others == "1/cm" :> N("1e7") @@ "cm**-1" :> N("1e7") @@ "1/um" :> N(1000) @@ "THz" :> N("299792.458") @@ "Hz" :> N("299792458e9")
Inverses == Energies @@ Others
IsUnit(u) == u \in DOMAIN Lengths \/ u \in DOMAIN Inverses
FromNm(u, lam) == IF u \in DOMAIN Lengths THEN Lengths[u] (.) lam ELSE Inverses[u] (/) lam
ToNm(u, x) == IF u \in DOMAIN Lengths THEN N(x) (/) Lengths[u] ELSE Inverses[u] (/) x

(* the units a formula may use (P17) *)
OkUnit(u) == u \in DOMAIN Lengths \/ u \in DOMAIN Energies \/ u = "none"
AxisValue(u, lam) == IF u = "none" THEN N(lam) ELSE FromNm(u, lam)

(* -------- an angle of a psi/delta table brought into a range -------- *)
Turn(d, low) == (N(d) (-) (NFloor((N(d) (-) low) (/) 360) (.) 360))          \* the one in low .. low + 360
SameAngle(a, b, tol) == LET d == N(a) (-) b k == NFloor((d (/) 360) (+) "1/2") IN NLeq(NAbs(d (-) (k (.) 360)), tol)
(* rho of a record, angles in degrees *)
Rho(psi, delta) == Tan(Deg(psi)) (.) NExp(Cx(N(0), NNeg(Deg(delta))))
=============================================================================
