------------------------------ MODULE Tr_Energy ------------------------------
(***************************************************************************)
(* Power laws of recorded evaluations (MC_IsoStack and MC_Berreman show    *)
(* that Maxwell's equations have them; here the code has to have them).    *)
(*   start n theta | layer diag | exit n obs turned over                   *)
(* The specification keeps what the laws depend on: the tangential wave    *)
(* number and whether anything crossed so far dissipates.                  *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES n0, kx, lossless
vars == <<n0, kx, lossless, l>>

Tol == "1e-6"
ITol == "1e-9"
Init == l = 1 /\ n0 = N(1) /\ kx = N(0) /\ lossless = TRUE

Start == /\ Is("start") /\ n0' = N(Ev.n) /\ kx' = N(Ev.n) (.) NSin(Deg(Ev.theta)) /\ lossless' = TRUE
LayerEv == /\ Is("layer")
           /\ lossless' = (lossless /\ \A i \in 1..3 : IsReal(N(Ev.diag[i])))
           /\ UNCHANGED <<n0, kx>>

Two == {1, 2}
InUnit(by, what, m) ==
  \A i, j \in Two : Chk(by \o "-" \o what \o "-in-[0,1]",
                        NLeq(NNeg(ITol), m[i][j]) /\ NLeq(m[i][j], N(1) (+) ITol), Show(m[i][j]))
ColR(m, j) == m[1][j] (+) m[2][j]
Balance(by, what, R, T) ==
  \A j \in Two :
    LET s == ColR(R, j) (+) ColR(T, j)
    IN IF lossless THEN Chk(by \o "-" \o what \o "-sum", Close(s, 1, Tol, 0), "R+T = " \o Show(s))
       ELSE Chk(by \o "-" \o what \o "-passive", NLeq(s, N(1) (+) Tol), "R+T = " \o Show(s))
ZeroT(by, T) == \A i, j \in Two : Chk(by \o "-T-evanescent", Close(T[i][j], 0, ITol, 0), Show(T[i][j]))

Transparent(n) == IsReal(N(n))
Propagates(n) == NLt(Sq(kx), Sq(n))
JudgePower(o, n, iso) ==
  IF o.err # "" THEN Chk(o.by \o "-raises", FALSE, o.err)
  ELSE /\ InUnit(o.by, "R", o.R_matrix)
       /\ InUnit(o.by, "Rc", o.Rc_matrix)
       /\ Chk(o.by \o "-R-in-[0,1]", NLeq(0, o.R) /\ NLeq(o.R, N(1) (+) ITol), Show(o.R))
       /\ IF ~Transparent(n) THEN
            /\ \A j \in Two : Chk(o.by \o "-R-passive", NLeq(ColR(o.R_matrix, j), N(1) (+) Tol), Show(ColR(o.R_matrix, j)))
            \* s-polarised light: what crosses into the absorbing exit is what is missing in front
            /\ LET s == o.R_matrix[2][2] (+) o.T_matrix[2][2] IN
               IF ~iso THEN TRUE
               ELSE IF lossless THEN Chk(o.by \o "-s-into-absorber", Close(s, 1, Tol, 0), "R+T = " \o Show(s))
               ELSE Chk(o.by \o "-s-into-absorber-passive", NLeq(s, N(1) (+) Tol), "R+T = " \o Show(s))
          ELSE /\ InUnit(o.by, "T", o.T_matrix)
               /\ InUnit(o.by, "Tc", o.Tc_matrix)
               /\ Chk(o.by \o "-T-in-[0,1]", NLeq(NNeg(ITol), o.T) /\ NLeq(o.T, N(1) (+) ITol), Show(o.T))
               /\ Balance(o.by, "linear", o.R_matrix, o.T_matrix)
               /\ Balance(o.by, "circular", o.Rc_matrix, o.Tc_matrix)
               /\ IF Propagates(n) THEN TRUE ELSE ZeroT(o.by, o.T_matrix) /\ ZeroT(o.by, o.Tc_matrix)

(* half turn about the normal *)
JudgeTurn(o, t) ==
  IF t.err # "" THEN Chk(t.by \o "-turned-raises", FALSE, t.err)
  ELSE IF o.err # "" THEN TRUE
  ELSE LET r == o.jones_matrix_r s == t.jones_matrix_r IN
       /\ ChkNum(o.by \o "-turned-r_pp", s[1][1], r[1][1], Tol, 0)
       /\ ChkNum(o.by \o "-turned-r_ss", s[2][2], r[2][2], Tol, 0)
       /\ ChkNum(o.by \o "-turned-r_ps", s[1][2], NNeg(r[2][1]), Tol, 0)
       /\ ChkNum(o.by \o "-turned-r_sp", s[2][1], NNeg(r[1][2]), Tol, 0)
(* turned over: transposed power transmittance *)
JudgeOver(o, v) ==
  IF v.err # "" THEN Chk(v.by \o "-over-raises", FALSE, v.err)
  ELSE IF o.err # "" THEN TRUE
  ELSE \A i, j \in Two : ChkNum(o.by \o "-over-T", v.T_matrix[j][i], o.T_matrix[i][j], Tol, 0)

Exit == /\ Is("exit")
        /\ \A i \in 1..Len(Ev.obs) : JudgePower(Ev.obs[i], Ev.n, Ev.iso)
        /\ \A i \in 1..Len(Ev.turned) : JudgeTurn(Ev.obs[i], Ev.turned[i])
        /\ \A i \in 1..Len(Ev.over) : JudgeOver(Ev.obs[i], Ev.over[i])
        /\ UNCHANGED <<n0, kx, lossless>>

Next == Start \/ LayerEv \/ Exit
Spec == Init /\ [][Next]_vars
=============================================================================
