---------------------------- MODULE MC_Containers ----------------------------
(* Histories of setter calls on a small family of containers.                *)
EXTENDS Containers, TLC, FiniteSets, Json
CONSTANTS MaxSteps
VARIABLES hist, bad           \* bad: an observation of a refused call that changed something
vars == <<objs, hist, bad>>

L(m, d) == [kind |-> "layer", mat |-> m, d |-> d]
Init0 == [o \in {"l1", "l2", "t", "v", "r1", "r2", "s"} |->
  CASE o = "l1" -> L("A", "10")
    [] o = "l2" -> L("B", "25")
    [] o = "t" -> [kind |-> "twist", mat |-> "A", d |-> "30", div |-> 3, angle |-> "90"]
    [] o = "v" -> [kind |-> "vary", mat |-> "M", d |-> "8", div |-> 2, mod |-> "id"]
    [] o = "r1" -> [kind |-> "rep", kids |-> <<"l1", "l2">>, n |-> 2, before |-> 1, after |-> 0]
    [] o = "r2" -> [kind |-> "rep", kids |-> <<"r1", "t">>, n |-> 1, before |-> 0, after |-> 2]
    [] o = "s" -> [kind |-> "stack", front |-> "F", kids |-> <<"l1", "r2", "v">>, back |-> "B"] ]

Init == objs = Init0 /\ hist = <<>> /\ bad = FALSE

Calls ==
  { <<"l1", "set_thickness", <<d>>>> : d \in {"12", "0", "-1"} }
  \cup { <<"v", "set_thickness", <<d>>>> : d \in {"16", "-1/1000"} }
  \cup { <<"t", "set_divisions", <<n>>>> : n \in {1, 4, 0, 0 - 2} }
  \cup { <<"t", "set_angle", <<a>>>> : a \in {"-45", "720"} }
  \cup { <<"v", "set_fraction_modulation", <<m>>>> : m \in {"sq", "rev"} }
  \cup { <<"v", "set_divisions", <<n>>>> : n \in {3, 0} }
  \cup { <<"r1", "set_repetitions", a>> : a \in {<<1, 0, 0>>, <<3, 2, 1>>, <<2, 5, 4>>, <<0, 1, 1>>, <<2, 0 - 1, 1>>, <<4, 1, 0 - 1>>} }
  \cup { <<"r2", "set_repetitions", a>> : a \in {<<2, 1, 1>>, <<1, 0, 0>>, <<0 - 1, 2, 2>>} }
  \cup { <<"r1", "set_layers", k>> : k \in {<<"l2">>, <<"l2", "l1", "t">>, <<"l1", "M">>, <<>>} }
  \cup { <<"r2", "set_layers", k>> : k \in {<<"r1">>, <<"v", "r1", "l1">>, <<"A">>} }
  \cup { <<"s", "set_layers", k>> : k \in {<<>>, <<"r2", "r1", "l2">>, <<"t", "t">>, <<"l1", "nothing">>} }
  \cup { <<o, "bad_argument", <<>>>> : o \in {"l1", "t", "v", "r1", "s"} }

Next == /\ Len(hist) < MaxSteps
        /\ \E c \in Calls :
             /\ Do(c[1], c[2], c[3])
             /\ hist' = Append(hist, c)
             /\ bad' = (bad \/ (~Call(c[1], c[2], c[3])[1] /\ objs' # objs))
Spec == Init /\ [][Next]_vars
View == <<objs, bad, Len(hist)>>

AlwaysValid == \A o \in DOMAIN objs : OkMake(objs[o])
RefusedChangesNothing == ~bad

(* Independent statements of what a profile is *)
Reps == {"r1", "r2"}
Index == \A o \in Reps :
  LET x == objs[o] p == Cat(x.kids) q == Profile(o) m == Len(p)
      b == Min2(x.before, m) a == Min2(x.after, m)
  IN /\ Len(q) = b + x.n * m + a
     /\ \A k \in 1..Len(q) : q[k] = p[((k - b - 1) % m) + 1]
TotalThickness == \A o \in {"t", "v"} : NEq(Thickness(Profile(o)), objs[o].d) /\ Len(Profile(o)) = objs[o].div
RepThickness == \A o \in Reps : LET x == objs[o] p == Cat(x.kids) IN
  NEq(Thickness(Profile(o)),
      (x.n (.) Thickness(p)) (+) (Thickness(Tail2(p, x.before)) (+) Thickness(Head2(p, x.after))))
(* the turn advances by the same angle from slice to slice and is symmetric about the middle *)
EvenTurn == LET x == objs["t"] p == Profile("t") IN
  /\ \A i \in 1..Len(p) : NEq(NAdd(p[i].how[2], p[Len(p) + 1 - i].how[2]), x.angle)
  /\ \A i \in 1..Len(p) - 1 : NEq(NSub(p[i + 1].how[2], p[i].how[2]), NDiv(x.angle, x.div))
(* nesting a period in a repetition of 1 is the period *)
Flat == LET s == Profile("s") IN SubSeq(s, 2, Len(s) - 1) = Cat(objs["s"].kids)

Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))
=============================================================================
