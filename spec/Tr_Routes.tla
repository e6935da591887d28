------------------------------ MODULE Tr_Routes ------------------------------
(***************************************************************************)
(* One question, many answers: the first answer is the answer; every other *)
(* route has to give the same.  "what" says which amplitudes a route       *)
(* defines (an exit described as a general medium has no s/p transmission  *)
(* amplitudes); with them go the powers, also where light leaves through  *)
(* or arrives through an absorbing medium.  Options that cannot be honoured have to be refused.       *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES ref
vars == <<ref, l>>
None == [by |-> "none", err |-> "none"]
ATol == "1e-7"
RTol == "1e-6"
Init == l = 1 /\ ref = None
Ask == Is("ask") /\ ref' = None

Names == << <<"pp", 1, 1>>, <<"ps", 1, 2>>, <<"sp", 2, 1>>, <<"ss", 2, 2>> >>
Same(by, what, got, want) ==
  \A i \in 1..4 : ChkNum(by \o "-" \o what \o "_" \o Names[i][1], got[Names[i][2]][Names[i][3]],
                         want[Names[i][2]][Names[i][3]], ATol, RTol)
Answer == /\ Is("answer")
          /\ LET o == Ev.obs IN
             IF o.err # "" THEN Chk(o.by \o "-raises", FALSE, o.err) /\ UNCHANGED ref
             ELSE IF ref.by = "none" THEN ref' = o
             ELSE /\ Same(o.by, "r", o.r, ref.r)
                  /\ IF Ev.what = "rt" THEN
                          Same(o.by, "t", o.t, ref.t) /\ Same(o.by, "R", o.R, ref.R) /\ Same(o.by, "T", o.T, ref.T)
                        ELSE TRUE
                  /\ UNCHANGED ref
Option == /\ Is("option") /\ Chk("option-" \o Ev.name \o "-accepted", Ev.err # "", "no error") /\ UNCHANGED ref
Next == Ask \/ Answer \/ Option
Spec == Init /\ [][Next]_vars
=============================================================================
