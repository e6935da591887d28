-------------------------------- MODULE Params --------------------------------
(***************************************************************************)
(* Binding of parameters.  An object is [cls, single, reps]; `single` maps *)
(* parameter names to values, `reps` is the sequence of added oscillators. *)
(* The templates are the documented parameters, in order, with defaults;   *)
(* the default "none" marks a parameter that has to be given.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

T(s, r) == [single |-> s, rep |-> r]
Templates ==
  "Cauchy" :> T(<< <<"n0", "1.5">>, <<"n1", "0">>, <<"n2", "0">>, <<"k0", "0">>, <<"k1", "0">>, <<"k2", "0">> >>, <<>>) @@
  "CauchyCustomExponent" :> T(<< <<"n0", "1.5">> >>, << <<"f", "0">>, <<"e", "1">> >>) @@
  "CauchyUrbach" :> T(<< <<"n0", "1.5">>, <<"B", "0">>, <<"C", "0">>, <<"D", "0">>, <<"Eg", "2">>, <<"Eu", "0.5">> >>, <<>>) @@
  "CodyLorentz" :> T(<< <<"Eg", "1.6">>, <<"A", "100">>, <<"Et", "1.8">>, <<"gamma", "2.4">>, <<"Ep", "0.8">>, <<"E0", "3.6">>, <<"Eu", "0.05">> >>, <<>>) @@
  "ConstantRefractiveIndex" :> T(<< <<"n", "1">> >>, <<>>) @@
  "DrudeEnergy" :> T(<< <<"A", "0">>, <<"gamma", "0">> >>, <<>>) @@
  "DrudeResistivity" :> T(<< <<"rho_opt", "1">>, <<"tau", "1">> >>, <<>>) @@
  "EpsilonInf" :> T(<< <<"eps", "1">> >>, <<>>) @@
  "Gaussian" :> T(<<>>, << <<"A", "1">>, <<"E", "1">>, <<"sigma", "1">> >>) @@
  "LorentzEnergy" :> T(<<>>, << <<"A", "1">>, <<"E", "0">>, <<"gamma", "0">> >>) @@
  "LorentzLambda" :> T(<<>>, << <<"A", "1">>, <<"lambda_r", "0">>, <<"gamma", "0">> >>) @@
  "Poles" :> T(<< <<"A_ir", "1">>, <<"A_uv", "1">>, <<"E_uv", "6">> >>, <<>>) @@
  "Polynomial" :> T(<< <<"e0", "1">> >>, << <<"f", "0">>, <<"e", "0">> >>) @@
  "Sellmeier" :> T(<<>>, << <<"A", "0">>, <<"B", "0">> >>) @@
  "SellmeierCustomExponent" :> T(<<>>, << <<"A", "0">>, <<"e_A", "1">>, <<"B", "0">>, <<"e_B", "1">> >>) @@
  "Table" :> T(<< <<"lbda", "none">>, <<"n", "none">> >>, <<>>) @@
  "TableEpsilon" :> T(<< <<"lbda", "none">>, <<"epsilon", "none">> >>, <<>>) @@
  "Tanguy" :> T(<< <<"A", "1">>, <<"d", "3">>, <<"gamma", "0.1">>, <<"R", "0.1">>, <<"Eg", "1">>, <<"a", "0">>, <<"b", "0">> >>, <<>>) @@
  "TaucLorentz" :> T(<< <<"Eg", "1">> >>, << <<"A", "20">>, <<"E", "1.5">>, <<"C", "1">> >>)

Keys(t) == {t[i][1] : i \in 1..Len(t)}
(* args: values in declared order; kw: sequence of <<name, value>> without repetition *)
Refused(t, args, kw) ==
  \/ Len(args) + Len(kw) > Len(t)                             \* surplus
  \/ \E i \in 1..Len(kw) : kw[i][1] \notin Keys(t)            \* unknown
  \/ \E i \in 1..Len(kw), j \in 1..Len(args) : j <= Len(t) /\ t[j][1] = kw[i][1]    \* given twice
Position(t, k) == CHOOSE i \in 1..Len(t) : t[i][1] = k
Named(kw, k) == \E i \in 1..Len(kw) : kw[i][1] = k
Value(kw, k) == kw[CHOOSE i \in 1..Len(kw) : kw[i][1] = k][2]
Bind(t, args, kw) ==
  [k \in Keys(t) |-> IF Position(t, k) <= Len(args) THEN args[Position(t, k)]
                     ELSE IF Named(kw, k) THEN Value(kw, k) ELSE t[Position(t, k)][2]]
Missing(b) == \E k \in DOMAIN b : b[k] = "none"

VARIABLE objs          \* id -> object
OkConstruct(c, args, kw) == LET t == Templates[c].single IN ~Refused(t, args, kw) /\ ~Missing(Bind(t, args, kw))
Construct(id, c, args, kw) ==
  objs' = IF OkConstruct(c, args, kw) THEN (id :> [cls |-> c, single |-> Bind(Templates[c].single, args, kw), reps |-> <<>>]) @@ objs ELSE objs
OkAdd(id, args, kw) == ~Refused(Templates[objs[id].cls].rep, args, kw)
Add(id, args, kw) ==
  objs' = IF OkAdd(id, args, kw) THEN [objs EXCEPT ![id].reps = Append(@, Bind(Templates[objs[id].cls].rep, args, kw))] ELSE objs
(* writing into the parameters of one object *)
PokeSingle(id, k, v) == objs' = [objs EXCEPT ![id].single[k] = v]
PokeRep(id, i, k, v) == objs' = [objs EXCEPT ![id].reps[i][k] = v]
=============================================================================
