------------------------------- MODULE Tr_Formula -------------------------------
(***************************************************************************)
(* Recorded formula dispersions against Formula.                           *)
(*  formula text tokens rep want axis single repeated lens unit mag err w everr v *)
(* rep: the representation the class stands for, want: the one written     *)
(***************************************************************************)
EXTENDS Formula, TraceBase, Functions
vars == <<l>>
Init == l = 1
EqualLens == \A i, j \in 1..Len(Ev.lens) : Ev.lens[i] = Ev.lens[j]
Creatable == WellFormed(Ev.tokens) /\ EqualLens /\ OkUnit(Ev.unit) /\ Ev.rep = Ev.want
Why == IF ~WellFormed(Ev.tokens) THEN "malformed" ELSE IF ~EqualLens THEN "lengths" ELSE IF ~OkUnit(Ev.unit) THEN "unit" ELSE IF Ev.rep # Ev.want THEN "representation" ELSE "formula"
EvalEv ==
  LET t == Parse(Ev.tokens).t
      known == Resolved(t, Ev.axis, DOMAIN Ev.single, IF Ev.lens = <<>> THEN {} ELSE Range(Ev.repnames))
  IN IF Names(t, "in") \cap Range(Ev.repnames) # {} /\ Ev.repeated = <<>> THEN TRUE       \* declared, but empty: not specified
     ELSE IF ~known THEN Chk("unknown-name-accepted", Ev.err # "" \/ Ev.everr # "", Ev.text)
     ELSE IF Ev.err # "" THEN Chk("formula-raises", FALSE, Ev.err \o ": " \o Ev.text)
     ELSE \A k \in 1..Len(Ev.w) :
       LET want == Force(Value(t, [axis |-> Ev.axis, x |-> AxisValue(Ev.unit, Ev.w[k]) (/) Ev.mag, single |-> Ev.single, rep |-> Ev.repeated], 0)) IN
       IF ~Ok(want) THEN TRUE
       ELSE IF Ev.everr # "" THEN Chk("evaluation-raises", FALSE, Ev.everr \o ": " \o Ev.text)
       ELSE Chk("value", NLeq(NAbs(N(Ev.v[k]) (-) want.v), (want.e (.) 1000) (+) (NAbs(want.v) (.) IF Ev.unit \in DOMAIN Energies THEN "1e-9" ELSE "1e-13")),
                Ev.text \o " at " \o Show(Ev.w[k]) \o " " \o Ev.unit \o " observed " \o Show(Ev.v[k]) \o ", specified " \o Show(want.v) \o " within " \o Show(want.e))
FormulaEv ==
  /\ Is("formula")
  /\ IF ~Creatable THEN Chk(Why \o "-accepted", Ev.err # "", Ev.text \o " unit " \o Ev.unit) ELSE EvalEv
Next == FormulaEv
Spec == Init /\ [][Next]_vars
=============================================================================
