------------------------------- MODULE MC_World -------------------------------
(* Histories of setters, evaluations, copies and reads.                        *)
EXTENDS World, Json
CONSTANTS MaxSteps, Values
VARIABLES w, results, forks, hist, taken
vars == <<w, results, forks, hist, taken>>
NoMat == [kind |-> "iso", disp |-> <<1>>, rot |-> <<>>, host |-> 0, guest |-> 0, frac |-> 0, rule |-> ""]
NoLayer == [kind |-> "layer", mat |-> 1, d |-> 1, div |-> 1, angle |-> 0, kids |-> <<>>, n |-> 1]
D(v) == [cls |-> "const", single |-> << <<"n", v>> >>, reps |-> <<>>]
World0 == [
  disp |-> <<D(1), D(2)>>,
  mat |-> <<NoMat, [NoMat EXCEPT !.kind = "uni", !.disp = <<1, 2>>], [NoMat EXCEPT !.kind = "mix", !.host = 1, !.guest = 2, !.frac = 1, !.rule = "VCA"]>>,
  layer |-> <<NoLayer, [NoLayer EXCEPT !.mat = 3], [NoLayer EXCEPT !.kind = "rep", !.kids = <<1, 2>>]>>,
  struct |-> [front |-> 1, kids |-> <<3, 1>>, back |-> 1],
  exp |-> [lbda |-> <<1>>, theta |-> 1, vec |-> <<1>>]]
Init == w = World0 /\ results = <<>> /\ forks = <<>> /\ hist = <<>> /\ taken = <<>>
Log(h) == Len(hist) < MaxSteps /\ hist' = Append(hist, h)
Set(op) == w' = Apply(w, op) /\ UNCHANGED <<results, forks, taken>> /\ Log(<<"set", op>>)
(* a result holds the experiment as it was *)
Evaluate == results' = Append(results, ExpTree(w)) /\ taken' = Append(taken, ExpTree(w)) /\ UNCHANGED <<w, forks>> /\ Log(<<"evaluate">>)
Fork == Len(forks) < 2 /\ forks' = Append(forks, [of |-> w, tree |-> StructTree(w)]) /\ UNCHANGED <<w, results, taken>> /\ Log(<<"fork">>)
Ops == {<<"single", i, "n", v>> : i \in 1..2, v \in Values} \cup {<<"thick", i, v>> : i \in 1..2, v \in Values} \cup {<<"mat", 2, m>> : m \in 1..3}
  \cup {<<"disp", 1, <<i>>>> : i \in 1..2} \cup {<<"frac", 3, v>> : v \in Values} \cup {<<"pair", 3, 2, 1>>} \cup {<<"layers", <<2>>>>, <<"layers", <<1, 3>>>>} \cup {<<"back", m>> : m \in 2..3}
  \cup {<<"theta", v>> : v \in Values} \cup {<<"lbda", <<v>>>> : v \in Values} \cup {<<"kids", 3, <<2>>>>, <<"reps", 3, 2>>}
Next == (\E op \in Ops : Set(op)) \/ Evaluate \/ Fork
Spec == Init /\ [][Next]_vars
View == <<w, results, forks, taken, Len(hist)>>
(* results and copies keep what they were made from *)
Kept == results = taken
Forked == \A i \in 1..Len(forks) : StructTree(forks[i].of) = forks[i].tree
Snapshots == [][(Len(results') >= Len(results)) /\ SubSeq(results', 1, Len(results)) = results /\ SubSeq(forks', 1, Len(forks)) = forks]_vars
(* evaluating and copying change no object *)
Pure == [][(hist' # hist /\ hist'[Len(hist')][1] # "set") => w' = w]_vars
(* a setter changes what the experiment evaluates to only if its target is reached, and other trees stay *)
Local == [][(hist' # hist /\ hist'[Len(hist')][1] = "set" /\ ~Sees(w, hist'[Len(hist')][2])) => ExpTree(w') = ExpTree(w)]_vars
(* what was set is what the next evaluation depends on; setting back restores the tree *)
Undo(op) ==
  IF op[1] = "single" THEN <<"single", op[2], "n", w.disp[op[2]].single[1][2]>>
  ELSE IF op[1] = "thick" THEN <<"thick", op[2], w.layer[op[2]].d>>
  ELSE IF op[1] = "mat" THEN <<"mat", op[2], w.layer[op[2]].mat>>
  ELSE IF op[1] = "disp" THEN <<"disp", op[2], w.mat[op[2]].disp>>
  ELSE IF op[1] = "frac" THEN <<"frac", op[2], w.mat[op[2]].frac>>
  ELSE IF op[1] = "pair" THEN <<"pair", op[2], w.mat[op[2]].host, w.mat[op[2]].guest>>
  ELSE IF op[1] = "layers" THEN <<"layers", w.struct.kids>>
  ELSE IF op[1] = "back" THEN <<"back", w.struct.back>>
  ELSE IF op[1] = "theta" THEN <<"theta", w.exp.theta>>
  ELSE IF op[1] = "lbda" THEN <<"lbda", w.exp.lbda>>
  ELSE IF op[1] = "kids" THEN <<"kids", op[2], w.layer[op[2]].kids>>
  ELSE <<"reps", op[2], w.layer[op[2]].n>>
Reversible == \A op \in Ops : Apply(Apply(w, op), Undo(op)) = w

Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))
Pick(S) == {RandomElement(S)}
(* behaviours for the code: abstract operations whose arguments the driver dresses *)
GenNext == Len(hist) < MaxSteps /\ \E c \in Pick(1..16) : \E i \in Pick(1..4) : \E j \in Pick(1..4) : \E k \in Pick(1..9) :
  LET h == IF c <= 2 THEN <<"single", i, k>> ELSE IF c = 3 THEN (IF k <= 4 THEN <<"addrep", i, k>> ELSE <<"reppar", i, k>>)
           ELSE IF c = 4 THEN <<"disp", i, j, k>> ELSE IF c = 5 THEN <<"rot", i, k>> ELSE IF c = 6 THEN (IF k <= 5 THEN <<"frac", k>> ELSE <<"pair", i, j>>)
           ELSE IF c = 7 THEN <<"thick", i, k>> ELSE IF c = 8 THEN <<"mat", i, j>> ELSE IF c = 9 THEN (IF k <= 3 THEN <<"reps", k>> ELSE IF k <= 6 THEN <<"layers", i, j>> ELSE <<"back", i>>)
           ELSE IF c = 10 THEN (IF k <= 3 THEN <<"theta", k>> ELSE IF k <= 6 THEN <<"lbda", k>> ELSE <<"vec", k>>)
           ELSE IF c = 11 THEN <<"spoil", k>> ELSE IF c = 12 THEN (IF k <= 4 THEN <<"part", i, k>> ELSE <<"fork", k>>) ELSE IF c <= 15 THEN <<"evaluate", k>> ELSE <<"reread", k>>
  IN UNCHANGED <<w, results, forks, taken>> /\ Log(h)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
