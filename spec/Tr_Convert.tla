------------------------------ MODULE Tr_Convert ------------------------------
(***************************************************************************)
(* Recorded conversions against Convert.                                   *)
(*  beam    lam                  a beam (several wavelengths)              *)
(*  conv    fn from to err v     the next conversion of the chain, applied *)
(*                               to what the last one returned             *)
(*  rho     rows psi delta err orows v                                     *)
(*  pseudo  out rows angle rho err orows v     v: complex eps, or n + ik   *)
(*  bare    eps + the fields of pseudo         rho is of that substrate    *)
(*  mueller rows psi delta err orows v         v: 16 numbers per row       *)
(*  simmm   psi delta v                        a simulated Mueller matrix  *)
(*  qwp     n lam err v                                                    *)
(***************************************************************************)
EXTENDS Convert, TraceBase, FiniteSets
VARIABLES lam, what
vars == <<l, lam, what>>
Init == l = 1 /\ lam = <<>> /\ what = "none"
BeamEv == Is("beam") /\ lam' = Ev.lam /\ what' = "wavelength"
ConvEv ==
  /\ Is("conv") /\ UNCHANGED lam /\ what' = Ev.to
  /\ Chk("raises", Ev.err = "", Ev.fn \o ": " \o Ev.err)
  /\ Chk("chain", <<Ev.from, Ev.to>> \in Conversions[Ev.fn] /\ Ev.from = what, Ev.fn)
  /\ IF Ev.err = "" THEN ChkSeq("conversion", Ev.v, [i \in 1..Len(lam) |-> Of(Ev.to, lam[i])], 0, "1e-13") ELSE TRUE
Keep == UNCHANGED <<lam, what>>
Labels == Chk("labels", Ev.orows = Ev.rows, "observed " \o ToString(Ev.orows) \o " for " \o ToString(Ev.rows))
(* rows that go through the wavelengths angle by angle keep their order *)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Grid == LET n == Len(Ev.rows) k == Cardinality({Ev.rows[i][1] : i \in 1..n}) m == n \div k IN
  /\ n = k * m /\ Distinct(Ev.rows)
  /\ \A i \in 1..n : LET p == (i - 1) \div m r == i - (m * p) IN Ev.rows[i][2] = Ev.rows[r][2] /\ Ev.rows[i][1] = Ev.rows[(m * p) + 1][1]
RhoEv ==
  /\ Is("rho") /\ Keep
  /\ Chk("raises", Ev.err = "", "rho: " \o Ev.err)
  /\ IF Ev.err # "" THEN TRUE ELSE Labels /\ \A i \in 1..Len(Ev.rows) :
       LET w == Rho(Ev.psi[i], Ev.delta[i]) IN ChkNum("rho", Ev.v[i], w, "1e-12" (.) (N(1) (+) Sq(NAbs(w))), 0)
ChkPseudo(clause, i, want, scale) ==
  IF Ev.out = "n" THEN LET n == N(Ev.v[i]) IN
       ChkNum(clause \o "-n", n (.) n, want, "1e-9" (.) scale, 0) /\ Chk("index-sign", NLeq("-1e-12", Re(n)), Show(n))
  ELSE ChkNum(clause, Ev.v[i], want, "1e-10" (.) scale, 0)
PseudoEv ==
  /\ Is("pseudo") \/ Is("bare")
  /\ Keep
  /\ Chk("raises", Ev.err = "", "pseudo: " \o Ev.err)
  /\ IF Ev.err # "" THEN TRUE ELSE Labels /\ \A i \in 1..Len(Ev.rows) :
       LET r == N(Ev.rho[i])  d == NAbs(N(1) (+) r)
           q == (N(1) (+) NAbs(r)) (/) d
           scale == (N(1) (+) Sq(Tan(Deg(Ev.angle)))) (.) (N(1) (+) (Sq(q) (.) (N(1) (+) (q (.) "1e-4"))))
       IN IF NLt(d, "1e-4") THEN TRUE ELSE
       /\ ChkPseudo("pseudo", i, PseudoEps(r, Ev.angle), scale)
       /\ IF Ev.ev = "bare" THEN ChkPseudo("substrate", i, Sq(N(Ev.n[i])), scale) ELSE TRUE
MuellerEv ==
  /\ Is("mueller") /\ Keep
  /\ Chk("raises", Ev.err = "", "Mueller: " \o Ev.err)
  /\ IF Ev.err # "" THEN TRUE ELSE
     /\ Chk("labels", Len(Ev.orows) = Len(Ev.rows) /\ \A i \in 1..Len(Ev.rows) : \E k \in 1..Len(Ev.orows) : Ev.orows[k] = Ev.rows[i], ToString(Ev.orows))
     /\ IF Grid THEN Labels ELSE TRUE
     /\ \A k \in 1..Len(Ev.orows) : \A i \in 1..Len(Ev.rows) : Ev.orows[k] = Ev.rows[i] =>
          LET M == IsoMueller(Ev.psi[i], Ev.delta[i]) IN
          \A m \in 0..15 : Chk("mueller", Close(Ev.v[k][m + 1], M[(m \div 4) + 1][((m - 4 * (m \div 4))) + 1], "1e-12", 0),
            "element " \o ToString(m) \o " observed " \o Show(Ev.v[k][m + 1]) \o ", specified " \o Show(M[(m \div 4) + 1][((m - 4 * (m \div 4))) + 1]))
SimEv == Is("simmm") /\ Keep /\ \A i \in 1..Len(Ev.psi) : LET M == IsoMueller(Ev.psi[i], Ev.delta[i]) IN
  \A m \in 0..15 : Chk("simulated-mueller", Close(Ev.v[i][m + 1], M[(m \div 4) + 1][((m - 4 * (m \div 4))) + 1], "1e-9", 0), "element " \o ToString(m))
QwpEv == Is("qwp") /\ Keep /\ Chk("raises", Ev.err = "", "quarter wave: " \o Ev.err)
  /\ IF Ev.err # "" THEN TRUE ELSE ChkNum("quarter-wave", Ev.v, QuarterWave(Ev.n, Ev.lam), 0, "1e-12")
Next == BeamEv \/ ConvEv \/ RhoEv \/ PseudoEv \/ MuellerEv \/ SimEv \/ QwpEv
Spec == Init /\ [][Next]_vars
=============================================================================
