------------------------------ MODULE Tr_History ------------------------------
(***************************************************************************)
(* Recorded parameter sets against History.  Every event carries what is   *)
(* then observed: cur, past (the snapshots, oldest first), max, and err.   *)
(*  new                    an empty set                                    *)
(*  add|tadd  p            add a parameter, tracked or not                 *)
(*  value|update n v       change a value, tracked or not                  *)
(*  vary n b, bounds n lo hi                                               *)
(*  params Q               take over parameters                            *)
(*  commit, pop got, clear, revert k, max m                                *)
(*  refused what           an operation that must change no parameter      *)
(*  spoil                  an object handed in or out, or a parameter      *)
(*                         taken out earlier, is changed                   *)
(***************************************************************************)
EXTENDS History, TraceBase
VARIABLES st
vars == <<l, st>>
Init == l = 1 /\ st = New
ParOf(e) == [name |-> e.name, val |-> N(e.val), min |-> e.min, max |-> e.max, vary |-> e.vary, of |-> e.of]
Read(E) == [i \in 1..Len(E) |-> ParOf(E[i])]
BoundEq(a, b) == IF a \in {"-inf", "inf"} \/ b \in {"-inf", "inf"} THEN a = b ELSE NEq(a, b)
Same(a, b) == a.name = b.name /\ NEq(a.val, b.val) /\ BoundEq(a.min, b.min) /\ BoundEq(a.max, b.max) /\ a.vary = b.vary /\ a.of = b.of
SetEq(P, Q) == Len(P) = Len(Q) /\ \A i \in 1..Len(P) : P[i].name \in Names(Q) /\ Same(P[i], Par(Q, P[i].name))
Text(P) == LET f[i \in 0..Len(P)] == IF i = 0 THEN "" ELSE f[i - 1] \o " " \o P[i].name \o "=" \o Show(P[i].val) \o "[" \o P[i].min \o "," \o P[i].max \o "]" \o ToString(P[i].vary) \o P[i].of IN f[Len(P)]
Cur == Read(Ev.cur)
Past == [i \in 1..Len(Ev.past) |-> Read(Ev.past[i])]
ChkPast(want) ==
  IF Len(Past) # Len(want) THEN Chk("length", FALSE, ToString(Len(Past)) \o " snapshots, specified " \o ToString(Len(want)))
  ELSE \A i \in 1..Len(want) : Chk("snapshot", SetEq(Past[i], want[i]), "snapshot " \o ToString(i) \o ":" \o Text(Past[i]) \o "; specified" \o Text(want[i]))
Checked(s) ==
  /\ Chk("raises", Ev.err = "", Ev.err)
  /\ Chk("current", SetEq(Cur, s.cur), "parameters" \o Text(Cur) \o "; specified" \o Text(s.cur))
  /\ ChkPast(s.hist)
  /\ ChkEq("maximum", Ev.max, s.max)
  /\ ChkEq("count", Ev.len, Len(s.hist))
To(s) == st' = Force(s) /\ Checked(s)
(* an operation on a parameter that the specification does not have *)
On(n, s) == IF n \in Names(st.cur) THEN To(s) ELSE st' = Force([st EXCEPT !.cur = Cur]) /\ Chk("names", FALSE, n \o " is a parameter that should not be there")
NewEv == Is("new") /\ To(New)
AddEv == Is("add") /\ To(Add(st, ParOf(Ev.p)))
TAddEv == Is("tadd") /\ To(TrackedAdd(st, ParOf(Ev.p)))
ValueEv == Is("value") /\ On(Ev.n, SetValue(st, Ev.n, N(Ev.v)))
UpdateEv == Is("update") /\ On(Ev.n, UpdateValue(st, Ev.n, N(Ev.v)))
VaryEv == Is("vary") /\ On(Ev.n, SetVary(st, Ev.n, Ev.b))
BoundsEv == Is("bounds") /\ On(Ev.n, SetBounds(st, Ev.n, Ev.lo, Ev.hi))
ParamsEv == Is("params") /\ To(UpdateParams(st, Read(Ev.q)))
CommitEv == Is("commit") /\ To(Commit(st))
ClearEv == Is("clear") /\ To(Clear(st))
RevertEv == Is("revert") /\ IF InRange(st, Ev.k) THEN To(Revert(st, Ev.k)) ELSE To(st)
MaxEv == Is("max") /\ To(SetMax(st, Ev.m))
PopEv == Is("pop") /\ To(Pop(st))
  /\ IF st.hist = <<>> THEN Chk("popped", Ev.none, "something popped from an empty history")
     ELSE IF Ev.none THEN Chk("popped", FALSE, "nothing popped") ELSE Chk("popped", SetEq(Read(Ev.got), st.cur), "popped" \o Text(Read(Ev.got)) \o "; specified" \o Text(st.cur))
(* refused: the parameters stay; a tracked change may have committed before it failed *)
RefusedEv ==
  /\ Is("refused")
  /\ LET s == IF Ev.tracked /\ (Len(Past) = Len(Commit(st).hist)) /\ (Len(Past) > 0) /\ (\A i \in 1..Len(Past) : SetEq(Past[i], Commit(st).hist[i])) THEN Commit(st) ELSE st IN
     /\ st' = Force(s)
     /\ Chk("not-refused", Ev.err # "" \/ Ev.silent, Ev.what)
     /\ Chk("current", SetEq(Cur, s.cur), "after a refused operation: parameters" \o Text(Cur) \o "; specified" \o Text(s.cur))
     /\ ChkPast(s.hist)
     /\ ChkEq("maximum", Ev.max, s.max)
SpoilEv == Is("spoil") /\ IF Ev.what = "held" THEN st' = Force([st EXCEPT !.cur = Cur]) /\ ChkPast(st.hist) ELSE To(st)
Next == NewEv \/ AddEv \/ TAddEv \/ ValueEv \/ UpdateEv \/ VaryEv \/ BoundsEv \/ ParamsEv \/ CommitEv \/ ClearEv \/ RevertEv \/ MaxEv \/ PopEv \/ RefusedEv \/ SpoilEv
Spec == Init /\ [][Next]_vars
=============================================================================
