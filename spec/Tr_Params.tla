------------------------------- MODULE Tr_Params -------------------------------
(***************************************************************************)
(* Recorded histories of parameter binding against Params.                 *)
(*   case                                                                  *)
(*   new  id cls args kw err      constructor or factory call              *)
(*   add  id args kw err same     add(); same: it returned the object      *)
(*   poke id i k v                a value written into one object          *)
(*   read id single reps          its parameters                           *)
(*   print id err named said      what printing it says: <<name, value>>   *)
(*   ask  id w err v              get_dielectric                           *)
(*   unknown name err             a name given to the factory              *)
(***************************************************************************)
EXTENDS TraceBase, FiniteSets
VARIABLE objs
P == INSTANCE Params
D == INSTANCE Dispersion
vars == <<objs, l>>
Init == l = 1 /\ objs = <<>>

Fresh == Is("case") /\ objs' = <<>>
Tab(c) == c \in {"Table", "TableEpsilon"}
NewEv == /\ Is("new")
         /\ LET ok == P!OkConstruct(Ev.cls, Ev.args, Ev.kw) IN
            /\ Chk((IF ok THEN "binding-raises" ELSE "binding-accepted"), ok = (Ev.err = ""), Ev.cls \o " " \o Ev.err \o " " \o ToString(<<Ev.args, Ev.kw>>))
            /\ P!Construct(Ev.id, Ev.cls, Ev.args, Ev.kw)
AddEv == /\ Is("add")
         /\ LET ok == P!OkAdd(Ev.id, Ev.args, Ev.kw) IN
            /\ Chk((IF ok THEN "add-raises" ELSE "add-accepted"), ok = (Ev.err = ""), objs[Ev.id].cls \o " " \o Ev.err \o " " \o ToString(<<Ev.args, Ev.kw>>))
            /\ IF Ev.err = "" THEN Chk("add-returns-object", Ev.same, objs[Ev.id].cls) ELSE TRUE
            /\ P!Add(Ev.id, Ev.args, Ev.kw)
PokeEv == Is("poke") /\ IF Ev.i = 0 THEN P!PokeSingle(Ev.id, Ev.k, Ev.v) ELSE P!PokeRep(Ev.id, Ev.i, Ev.k, Ev.v)

SameV(c, a, b) == IF Tab(c) THEN a = b ELSE Close(a, b, 0, "1e-15")
Agree(c, got, want) ==
  /\ Len(got) = Cardinality(DOMAIN want)
  /\ \A i \in 1..Len(got) : got[i][1] \in DOMAIN want /\ SameV(c, got[i][2], want[got[i][1]])
  /\ \A k \in DOMAIN want : \E i \in 1..Len(got) : got[i][1] = k
ReadEv == /\ Is("read")
          /\ LET o == objs[Ev.id] IN
             /\ Chk("single-parameters", Agree(o.cls, Ev.single, o.single), o.cls \o " observed " \o ToString(Ev.single) \o ", specified " \o ToString(o.single))
             /\ IF Len(Ev.reps) # Len(o.reps) THEN Chk("number-of-oscillators", FALSE, o.cls)
                ELSE \A i \in 1..Len(o.reps) :
                  Chk("oscillator-parameters", Agree(o.cls, Ev.reps[i], o.reps[i]), o.cls \o " observed " \o ToString(Ev.reps[i]) \o ", specified " \o ToString(o.reps[i]))
          /\ UNCHANGED objs
\* what printing the object says: every parameter with its value, an oscillator's as often as there are oscillators, nothing else
Times(c, said, p) == Cardinality({i \in 1..Len(said) : said[i][1] = p[1] /\ said[i][2] # "none" /\ SameV(c, said[i][2], p[2])})
Told(o) == <<o.single>> \o o.reps
Held(o, p) == Cardinality({i \in 1..Len(Told(o)) : p[1] \in DOMAIN Told(o)[i] /\ SameV(o.cls, Told(o)[i][p[1]], p[2])})
PrintEv == /\ Is("print")
           /\ LET o == objs[Ev.id] IN
              IF Ev.err # "" THEN Chk("printing-raises", FALSE, o.cls \o " " \o Ev.err)
              ELSE /\ Chk("printed-class", Ev.named, o.cls)
                   /\ \A i \in 1..Len(Told(o)) : \A k \in DOMAIN Told(o)[i] : LET p == <<k, Told(o)[i][k]>> IN
                        Chk("printed-parameters", Times(o.cls, Ev.said, p) = Held(o, p), o.cls \o " " \o ToString(p) \o " printed as " \o ToString(Ev.said))
           /\ UNCHANGED objs
AskEv == /\ Is("ask")
         /\ LET o == objs[Ev.id]
                d == [cls |-> o.cls, single |-> o.single, rep |-> o.reps]
            IN IF Ev.err # "" THEN Chk("evaluation-raises", FALSE, o.cls \o " " \o Ev.err)
               ELSE \A i \in 1..Len(Ev.w) : LET want == D!Eps(d, Ev.w[i]) IN
                 IF ~IsNum(want) THEN TRUE
                 ELSE Chk("value-of-bound-parameters", Close(Ev.v[i], want, "1e-6", "1e-6"), o.cls \o " at " \o Show(Ev.w[i]) \o " observed " \o Show(Ev.v[i]) \o ", specified " \o Show(want))
         /\ UNCHANGED objs
UnknownEv == Is("unknown") /\ Chk("unknown-name-accepted", Ev.err # "", Ev.name) /\ UNCHANGED objs
Next == Fresh \/ NewEv \/ AddEv \/ PokeEv \/ ReadEv \/ PrintEv \/ AskEv \/ UnknownEv
Spec == Init /\ [][Next]_vars
=============================================================================
