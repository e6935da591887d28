------------------------------- MODULE Tr_Files -------------------------------
(***************************************************************************)
(* Recorded readings of measurement files against Files.                   *)
(*  file  fmt lines err rows perm rhoerr rhos                              *)
(* rows[i]: the i-th row returned; perm[i]: the record it is said to stem  *)
(* from, a witness that is checked here.                                   *)
(***************************************************************************)
EXTENDS Files, TraceBase
vars == <<l>>
Init == l = 1
R == Force(Read(Ev.fmt, Ev.lines))
OnceEach(p, n) == Len(p) = n /\ {p[i] : i \in 1..Len(p)} = 1..n
Where(i) == Ev.fmt \o " row " \o ToString(i) \o ": "
RowEv(i, want) ==
  LET got == Ev.rows[i] IN
  /\ ChkNum("angle", got[1], want.aoi, 0, "1e-14")
  /\ ChkNum("wavelength", got[2], want.wl, 0, "1e-11")
  /\ ChkNum("psi", got[3], want.psi, 0, "1e-14")
  /\ Chk("delta", SameAngle(got[4], want.delta, "1e-10") /\ (Ev.fmt \in Wrapped => NLeq("-180.0000000001", got[4]) /\ NLeq(got[4], "180.0000000001"))
                  /\ (Ev.fmt \in Woollam => NEq(got[4], want.delta) \/ Close(got[4], want.delta, 0, "1e-14")),
         Where(i) \o "observed " \o Show(got[4]) \o ", specified " \o Show(want.delta))
RhoEv(i, want) ==
  LET got == Ev.rhos[i] rho == Rho(want.psi, want.delta) IN
  /\ ChkNum("rho-angle", got[1], want.aoi, 0, "1e-14")
  /\ ChkNum("rho-wavelength", got[2], want.wl, 0, "1e-11")
  /\ NEq(want.psi, 90) \/ ChkNum("rho", got[3], rho, "1e-11" (.) (N(1) (+) Sq(NAbs(rho))), 0)
MmEv(i, want) ==
  /\ ChkNum("mm-wavelength", Ev.rows[i][1], want.wl, 0, "1e-14")
  /\ ChkSeq("mm-elements", Ev.rows[i][2], want.m, 0, "1e-14")
FileEv ==
  /\ Is("file")
  /\ IF Refused(Ev.fmt, R) THEN Chk("unreadable-accepted", Ev.err # "", Ev.fmt)
     ELSE IF Ev.err # "" THEN Chk("file-refused", FALSE, Ev.fmt \o ": " \o Ev.err)
     ELSE IF ~OnceEach(Ev.perm, Len(R.rows)) \/ Len(Ev.rows) # Len(R.rows)
          THEN Chk("records", FALSE, Ev.fmt \o ": " \o ToString(Len(Ev.rows)) \o " rows for " \o ToString(Len(R.rows)) \o " records")
     ELSE IF Ev.fmt = "mmatrix" THEN \A i \in 1..Len(Ev.rows) : MmEv(i, R.rows[Ev.perm[i]])
     ELSE /\ \A i \in 1..Len(Ev.rows) : RowEv(i, R.rows[Ev.perm[i]])
          /\ IF Ev.rhoerr = "none" THEN TRUE
             ELSE IF Ev.rhoerr # "" \/ Len(Ev.rhos) # Len(Ev.rows) THEN Chk("rho-refused", FALSE, Ev.fmt \o ": " \o Ev.rhoerr)
             ELSE \A i \in 1..Len(Ev.rhos) : RhoEv(i, R.rows[Ev.perm[i]])
Next == FileEv
Spec == Init /\ [][Next]_vars
=============================================================================
