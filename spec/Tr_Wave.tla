------------------------------ MODULE Tr_Wave ------------------------------
(***************************************************************************)
(*   subject kind strict tol       a new object under test                 *)
(*   alone   w err v               one wavelength alone                    *)
(*   batch   form ws err lead v    a call with several; lead = length of   *)
(*                                 the answer's leading axis, -1: a scalar *)
(***************************************************************************)
EXTENDS Wave, TraceBase
VARIABLE subj
vars == <<ans, subj, l>>
Init == l = 1 /\ ans = <<>> /\ subj = [kind |-> "none", strict |-> TRUE, atol |-> "0", rtol |-> "0"]

Subject == Is("subject") /\ NewSubject /\ subj' = [kind |-> Ev.kind, strict |-> Ev.strict, atol |-> Ev.atol, rtol |-> Ev.rtol]
Alone == /\ Is("alone")
         /\ Chk(subj.kind \o "-alone-raises", Ev.err = "", Ev.err)
         /\ IF Ev.err = "" THEN Learn(Ev.w, Ev.v) ELSE UNCHANGED ans
         /\ UNCHANGED subj

Same(got, want, i) ==
  IF Len(got) # Len(want) THEN Chk(subj.kind \o "-shape", FALSE, Ev.form \o " element " \o ToString(i))
  ELSE \A j \in 1..Len(want) :
         \* a pole of the model (no number) is a pole in every call
         Chk(subj.kind \o "-" \o Ev.form, IF IsNum(want[j]) THEN Close(got[j], want[j], subj.atol, subj.rtol) ELSE ~IsNum(got[j]),
             "element " \o ToString(i) \o " component " \o ToString(j) \o ": in this call " \o Show(got[j]) \o ", alone " \o Show(want[j]))
Batch == /\ Is("batch")
         /\ IF Ev.err # "" THEN Chk(subj.kind \o "-" \o Ev.form \o "-raises", FALSE, Ev.err)
            ELSE IF \E i \in DOMAIN Ev.ws : ~Known(Ev.ws[i]) THEN TRUE      \* reported when it was asked alone
            ELSE LET want == Image(Ev.ws) IN
                 IF Ev.lead = 0 - 1 /\ ~subj.strict
                 THEN \A i \in DOMAIN want : Same(Ev.v[1], want[i], i)
                 ELSE IF Ev.lead # Len(want)
                 THEN Chk(subj.kind \o "-" \o Ev.form \o "-length", FALSE, "leading axis " \o ToString(Ev.lead) \o " for " \o ToString(Len(want)) \o " wavelengths")
                 ELSE \A i \in DOMAIN want : Same(Ev.v[i], want[i], i)
         /\ UNCHANGED <<ans, subj>>
Next == Subject \/ Alone \/ Batch
Spec == Init /\ [][Next]_vars
=============================================================================
