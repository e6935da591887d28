------------------------------ MODULE MC_Wave ------------------------------
(***************************************************************************)
(* A subject answering calls through Wave, with an internal cache that a   *)
(* vectorised implementation might keep; invariants: the answers of a call *)
(* do not depend on the other wavelengths of the call or on earlier calls. *)
(***************************************************************************)
EXTENDS Wave

CONSTANTS W, MaxLen, MaxCalls
F(w) == w * w + 1       \* the subject
VARIABLES log           \* sequence of <<asked, answered>>
vars == <<ans, log>>

Calls == UNION {[1..n -> W] : n \in 1..MaxLen}
Init == ans = <<>> /\ log = <<>>
Alone(w) == /\ ~Known(w) /\ Learn(w, F(w)) /\ UNCHANGED log
Batch(ws) == /\ Len(log) < MaxCalls
             /\ \A i \in DOMAIN ws : Known(ws[i])
             /\ log' = Append(log, <<ws, Image(ws)>>)
             /\ UNCHANGED ans
Next == (\E w \in W : Alone(w)) \/ (\E ws \in Calls : Batch(ws))
Spec == Init /\ [][Next]_vars

Pointwise == \A k \in DOMAIN log : \A i \in DOMAIN log[k][1] : log[k][2][i] = F(log[k][1][i])
SameLength == \A k \in DOMAIN log : Len(log[k][1]) = Len(log[k][2])
Independent == \A k, m \in DOMAIN log : \A i \in DOMAIN log[k][1] : \A j \in DOMAIN log[m][1] :
                 log[k][1][i] = log[m][1][j] => log[k][2][i] = log[m][2][j]
=============================================================================
