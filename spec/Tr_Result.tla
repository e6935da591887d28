------------------------------ MODULE Tr_Result ------------------------------
(***************************************************************************)
(* Recorded uses of real results against Result.                           *)
(*   result  jr jt pc vec           a result (pc empty: to be learned)     *)
(*   select  lo hi whole err        as_delta_range                         *)
(*   ask     via name err v         attribute or get: v[k] the value at    *)
(*                                  wavelength k, flattened by rows        *)
(*   unknown via name err           a name that means nothing              *)
(*   convert form lo hi whole x err v      convert_delta_range             *)
(***************************************************************************)
EXTENDS Result, TraceBase
vars == <<resVars, l>>
AT == "1e-9"
RT == "1e-8"
DT == "1e-6"       \* degrees

Init == l = 1 /\ jr = <<>> /\ jt = <<>> /\ pc = <<>> /\ vec = <<>> /\ range = <<0 - 180, 180>>

MakeEv == Is("result") /\ MakeResult(Ev.jr, Ev.jt, Ev.pc, Ev.vec)

SelectEv ==
  /\ Is("select")
  /\ LET ok == Ev.whole /\ LegalRange(Ev.lo, Ev.hi) IN
     Chk(IF ok THEN "legal-range-refused" ELSE "illegal-range-accepted", (Ev.err = "") = ok,
         ToString(Ev.lo) \o ".." \o ToString(Ev.hi) \o " " \o Ev.err)
  /\ Select(Ev.lo, Ev.hi, Ev.whole)

InBounds(d, lo, hi) == IsReal(d) /\ NLeq(N(lo) (-) "1e-9", d) /\ NLeq(d, N(hi) (+) "1e-9")
AngleOk(clause, d, want, lo, hi) ==
  /\ Chk(clause \o "-outside-range", InBounds(d, lo, hi), Show(d) \o " not in " \o ToString(lo) \o ".." \o ToString(hi))
  /\ Chk(clause \o "-not-congruent",
         IsReal(d) /\ NLeq(IF <<lo, hi>> = Folded THEN NAbs(FoldAngle(d) (-) FoldAngle(want)) ELSE Circular(d, want), DT),
         "observed " \o Show(d) \o ", original " \o Show(want))

Picked(M, e) == IF e.i = 0 THEN M ELSE One(M[e.i][e.j])
Flat(M) == [m \in 1..(Len(M) * Len(M[1])) |-> M[((m - 1) \div Len(M[1])) + 1][((m - 1) % Len(M[1])) + 1]]
Judge(name, e, k, got) ==
  LET want == Flat(Picked(Matrix(e.q, k), e)) IN
  IF Len(got) # Len(want) THEN Chk(e.q \o "-shape", FALSE, name)
  ELSE IF e.q \in Angles
  THEN LET ph == Flat(Picked(Phasor(e.q, k), e)) IN
       \A m \in 1..Len(want) :
         IF NLeq(NAbs(ph[m]), "1e-7")
         THEN Chk(e.q \o "-outside-range", InBounds(got[m], range[1], range[2]), name \o " " \o Show(got[m]))
         ELSE AngleOk(e.q, got[m], want[m], range[1], range[2])
  ELSE IF e.q \in {"rho", "rhot"} /\ range = Folded /\ NLeq(NAbs(Im(want[1])), "1e-9")
  THEN Chk(e.q, Close(got[1], want[1], "1e-8", RT), name)
  ELSE \A m \in 1..Len(want) :
       Chk(e.q, Close(got[m], want[m], AT, RT), name \o " component " \o ToString(m) \o " observed " \o Show(got[m]) \o ", specified " \o Show(want[m]))

AskEv ==
  /\ Is("ask")
  /\ LET e == Names[Ev.name] IN
     IF Ev.err # "" THEN Chk("name-refused", FALSE, Ev.name \o " by " \o Ev.via \o ": " \o Ev.err)
     ELSE IF Len(Ev.v) # Len(jr) THEN Chk("length", FALSE, Ev.name)
     ELSE \A k \in 1..Len(jr) : Judge(Ev.name, e, k, Ev.v[k])
  /\ UNCHANGED resVars

UnknownEv ==
  /\ Is("unknown")
  /\ Chk("unknown-name-answered", Ev.err # "" \/ Ev.name \in DOMAIN Names, Ev.name \o " by " \o Ev.via)
  /\ UNCHANGED resVars

ConvertEv ==
  /\ Is("convert")
  /\ LET ok == Ev.whole /\ LegalRange(Ev.lo, Ev.hi) IN
     /\ Chk(IF ok THEN "convert-" \o Ev.form \o "-refused" ELSE "convert-illegal-range-accepted", (Ev.err = "") = ok, Ev.err)
     /\ IF ~ok \/ Ev.err # "" THEN TRUE
        ELSE IF Len(Ev.v) # Len(Ev.x) THEN Chk("convert-" \o Ev.form \o "-length", FALSE, "")
        ELSE \A k \in 1..Len(Ev.x) : AngleOk("convert-" \o Ev.form, Ev.v[k], Ev.x[k], Ev.lo, Ev.hi)
  /\ UNCHANGED resVars

Next == MakeEv \/ SelectEv \/ AskEv \/ UnknownEv \/ ConvertEv
Spec == Init /\ [][Next]_vars
=============================================================================
