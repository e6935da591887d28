------------------------------- MODULE MC_Params -------------------------------
(* Histories of constructing, adding and overwriting parameters.              *)
EXTENDS Params, FiniteSets, Json
CONSTANTS MaxSteps, MaxObjs, Classes, Small
VARIABLES hist, shadow
vars == <<objs, hist, shadow>>

(* values are named after the step and the parameter they are meant for; the driver chooses numbers *)
V(k) == "v" \o ToString(Len(hist)) \o k
Wrong == {"nonsense", "E_0"}
KwSets(t) == {S \in SUBSET (Keys(t) \cup Wrong) : Cardinality(S) <= IF Small THEN 1 ELSE 2} \cup {Keys(t)}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Kw(S) == LET s == SeqOf(S) IN [i \in 1..Len(s) |-> <<s[i], V(s[i])>>]
Args(t, n) == [i \in 1..n |-> IF i <= Len(t) THEN V(t[i][1]) ELSE V("surplus")]
Step(e) == hist' = Append(hist, e)

Init == objs = <<>> /\ hist = <<>> /\ shadow = <<>>
New == Cardinality(DOMAIN objs) < MaxObjs /\
  \E c \in Classes : LET t == Templates[c].single id == "o" \o ToString(Len(hist)) IN
    \E n \in 0..Len(t) + 1, S \in KwSets(t) :
      LET ok == OkConstruct(c, Args(t, n), Kw(S)) IN
      /\ Construct(id, c, Args(t, n), Kw(S))
      /\ Step([op |-> "new", id |-> id, cls |-> c, args |-> Args(t, n), kw |-> Kw(S)])
      /\ shadow' = IF ok THEN (id :> <<[n |-> n, S |-> S, at |-> Len(hist)]>>) @@ shadow ELSE shadow
Oscillator ==
  \E id \in DOMAIN objs : LET t == Templates[objs[id].cls].rep IN
    \E n \in 0..Len(t) + 1, S \in KwSets(t) :
      /\ Add(id, Args(t, n), Kw(S))
      /\ Step([op |-> "add", id |-> id, args |-> Args(t, n), kw |-> Kw(S)])
      /\ shadow' = IF OkAdd(id, Args(t, n), Kw(S)) THEN [shadow EXCEPT ![id] = Append(@, [n |-> n, S |-> S, at |-> Len(hist)])] ELSE shadow
Poke ==
  \E id \in DOMAIN objs :
    \/ \E k \in DOMAIN objs[id].single :
         PokeSingle(id, k, V(k)) /\ Step([op |-> "poke", id |-> id, i |-> 0, k |-> k, v |-> V(k)]) /\ UNCHANGED shadow
    \/ \E i \in 1..Len(objs[id].reps) : \E k \in DOMAIN objs[id].reps[i] :
         PokeRep(id, i, k, V(k)) /\ Step([op |-> "poke", id |-> id, i |-> i, k |-> k, v |-> V(k)]) /\ UNCHANGED shadow
Next == Len(hist) < MaxSteps /\ (New \/ Oscillator \/ Poke)
Spec == Init /\ [][Next]_vars

(* no parameter is without a value, none is invented, oscillators are as many as accepted calls *)
Complete == \A id \in DOMAIN objs :
  /\ DOMAIN objs[id].single = Keys(Templates[objs[id].cls].single)
  /\ ~Missing(objs[id].single)
  /\ Len(objs[id].reps) = Len(shadow[id]) - 1
  /\ \A i \in 1..Len(objs[id].reps) : DOMAIN objs[id].reps[i] = Keys(Templates[objs[id].cls].rep)
(* the declarative meaning, from the record of accepted calls: a parameter has the value meant for it in that call,
   wherever in the call it was written, otherwise the default, unless overwritten later *)
Overwritten(id, i, k) == {j \in 1..Len(hist) : hist[j].op = "poke" /\ hist[j].id = id /\ hist[j].i = i /\ hist[j].k = k}
Meant(t, c, k) == IF Position(t, k) <= c.n \/ k \in c.S THEN "v" \o ToString(c.at) \o k ELSE t[Position(t, k)][2]
Holds(id, i, t, p, k) ==
  LET o == Overwritten(id, i, k) IN
  p[k] = IF o # {} THEN hist[CHOOSE j \in o : \A m \in o : m <= j].v ELSE Meant(t, shadow[id][i + 1], k)
Meaning == \A id \in DOMAIN objs :
  LET t == Templates[objs[id].cls] IN
  /\ \A k \in DOMAIN objs[id].single : Holds(id, 0, t.single, objs[id].single, k)
  /\ \A i \in 1..Len(objs[id].reps) : \A k \in DOMAIN objs[id].reps[i] : Holds(id, i, t.rep, objs[id].reps[i], k)
(* for simulation: one random call of every kind *)
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Kws(t) == {S \in SUBSET (Keys(t) \cup (IF RandomElement(1..6) = 1 THEN Wrong ELSE {})) : TRUE}
Count(t) == IF RandomElement(1..8) = 1 THEN 0..Len(t) + 1 ELSE 0..(IF Len(t) > 0 THEN RandomElement(0..Len(t)) ELSE 0)
(* keywords for the parameters not given by position, mostly *)
Rest(t, n) == IF RandomElement(1..6) = 1 THEN Kws(t) ELSE SUBSET {k \in Keys(t) : Position(t, k) > n}
GenNew == Cardinality(DOMAIN objs) < MaxObjs /\
  \E c \in One(Classes) : LET t == Templates[c].single id == "o" \o ToString(Len(hist)) IN
    \E n \in One(Count(t)) : \E S \in One(Rest(t, n)) :
      /\ Construct(id, c, Args(t, n), Kw(S))
      /\ Step([op |-> "new", id |-> id, cls |-> c, args |-> Args(t, n), kw |-> Kw(S)]) /\ UNCHANGED shadow
GenAdd == \E id \in One(DOMAIN objs) : LET t == Templates[objs[id].cls].rep IN
    \E n \in One(Count(t)) : \E S \in One(Rest(t, n)) :
      Add(id, Args(t, n), Kw(S)) /\ Step([op |-> "add", id |-> id, args |-> Args(t, n), kw |-> Kw(S)]) /\ UNCHANGED shadow
GenPoke == \E id \in One(DOMAIN objs) : \E i \in One(0..Len(objs[id].reps)) :
    \E k \in One(IF i = 0 THEN DOMAIN objs[id].single ELSE DOMAIN objs[id].reps[i]) :
      /\ IF i = 0 THEN PokeSingle(id, k, V(k)) ELSE PokeRep(id, i, k, V(k))
      /\ Step([op |-> "poke", id |-> id, i |-> i, k |-> k, v |-> V(k)]) /\ UNCHANGED shadow
GenNext == Len(hist) < MaxSteps /\ (GenNew \/ GenAdd \/ GenPoke)
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))
=============================================================================
