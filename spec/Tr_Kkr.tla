-------------------------------- MODULE Tr_Kkr --------------------------------
(* Recorded transforms against Kkr:  kkr kind t x err v kept                   *)
EXTENDS Kkr, TraceBase
vars == <<l>>
Init == l = 1
Ok == Len(Ev.t) = Len(Ev.x) /\ Len(Ev.x) >= 2
KkrEv ==
  /\ Is("kkr")
  /\ Chk(Ev.kind \o (IF Ok THEN "-raises" ELSE "-accepted"), Ok = (Ev.err = ""), Ev.err \o " " \o ToString(<<Len(Ev.t), Len(Ev.x)>>))
  /\ Chk("input-changed", Ev.kept, Ev.kind)
  /\ IF ~Ok \/ Ev.err # "" THEN TRUE
     ELSE IF Len(Ev.v) # Len(Ev.x) THEN Chk(Ev.kind \o "-length", FALSE, "")
     ELSE LET t == Force([i \in 1..Len(Ev.t) |-> N(Ev.t[i])]) x == Force([i \in 1..Len(Ev.x) |-> N(Ev.x[i])]) IN
       \A i \in 1..Len(x) :
         LET want == Transform(Ev.kind, t, x, i) IN
         IF ~IsNum(want) THEN TRUE
         ELSE Chk(Ev.kind, Close(Ev.v[i], want, (N("1e-9") (.) Scale(Ev.kind, t, x, i)) (+) "1e-300", 0),
                  "point " \o ToString(i) \o " of " \o ToString(Len(x)) \o " observed " \o Show(Ev.v[i]) \o ", specified " \o Show(want))
Next == KkrEv
Spec == Init /\ [][Next]_vars
=============================================================================
