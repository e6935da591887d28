------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common part of the trace specifications.  A trace is a sequence of      *)
(* events recorded from the real code; a trace specification consumes one  *)
(* event per step, taking the specification's own action with the logged   *)
(* arguments and comparing what the specification says with what was       *)
(* observed.  Verdicts are total: a mismatch is reported, naming the       *)
(* clause, and validation goes on with the specification's state.          *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)

VARIABLE l      \* next event

Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Ev.ev = name /\ l' = l + 1

(* ok, or the report of a violated clause *)
Chk(clause, ok, info) ==
  IF ok THEN TRUE
  ELSE PrintT("@@BAD|" \o ToString(l) \o "|" \o clause \o "|" \o info)

Near(x, y, atol, rtol) == Close(x, y, atol, rtol)

(* numbers agree within the tolerance, otherwise the report says how *)
ChkNum(clause, got, want, atol, rtol) ==
  Chk(clause, Close(got, want, atol, rtol), "observed " \o Show(got) \o ", specified " \o Show(want))

(* sequences of numbers, elementwise *)
ChkSeq(clause, got, want, atol, rtol) ==
  IF Len(got) # Len(want)
  THEN Chk(clause, FALSE, "length " \o ToString(Len(got)) \o ", specified " \o ToString(Len(want)))
  ELSE \A i \in 1..Len(want) :
         Chk(clause, Close(got[i], want[i], atol, rtol),
             "at " \o ToString(i) \o " observed " \o Show(got[i]) \o ", specified " \o Show(want[i]))

ChkEq(clause, got, want) ==
  Chk(clause, got = want, "observed " \o ToString(got) \o ", specified " \o ToString(want))

Finished == l = Len(Trace) + 1
EndReport == Finished => PrintT("@@END|" \o ToString(Len(Trace)))
=============================================================================
