------------------------------ MODULE MC_Light ------------------------------
(* Settings, evaluations, and changes of the arrays passed in.            *)
EXTENDS Light, Json
CONSTANTS MaxSteps, Free
VARIABLES light, held, results, hist
vars == <<light, held, results, hist>>
Jones == << <<N(1), N(0)>>, <<N(0), N(1)>>, <<N(1), N(1)>>, <<N(1), NNeg(1)>>, <<N(1), I1>>, <<N(1), NNeg(I1)>>, <<Cx("3/5", "1/7"), Cx(0, "-4/5")>>, <<N("1e-9"), Cx(1, 1)>>, <<N(3), N("1e-9")>> >>
Stokes == << <<1, 1, 0, 0>>, <<1, -1, 0, 0>>, <<3, "-1/10", 0, 0>>, <<1, 0, 1, 0>>, <<1, 0, -1, 0>>, <<1, 0, 0, 1>>, <<1, 0, 0, -1>>, <<2, "3/5", "-1/2", "1/3">>,
             <<5, "-3", "1e-9", "-1e-9">>, <<1, "-0.6", 0, "0.8">> >>
Kinds == {"jones", "stokes", "none"}
Vec(k, i) == IF k = "jones" THEN Jones[i] ELSE IF k = "stokes" THEN [m \in 1..4 |-> N(Stokes[i][m])] ELSE <<>>
Count(k) == IF k = "jones" THEN Len(Jones) ELSE IF k = "stokes" THEN Len(Stokes) ELSE 1
Init == light = Light("none", <<>>) /\ held = Diagonal /\ results = <<>> /\ hist = <<>>
Log(h) == Len(hist) < MaxSteps /\ hist' = Append(hist, h)
Set(k, i) == light' = Light(k, Vec(k, i)) /\ held' = Vec(k, i) /\ UNCHANGED results /\ Log(<<"set", k, i>>)
Spoil == held # <<>> /\ held' = [held EXCEPT ![1] = N(7)] /\ UNCHANGED <<light, results>> /\ Log(<<"spoil">>)
Evaluate == results' = Append(results, light) /\ UNCHANGED <<light, held>> /\ Log(<<"evaluate">>)
Reread == results # <<>> /\ UNCHANGED <<light, held, results>> /\ Log(<<"reread">>)
Next == (\E k \in Kinds : \E i \in 1..Count(k) : Set(k, i)) \/ Spoil \/ Evaluate \/ Reread
Spec == Init /\ [][Next]_vars
View == <<light, held, results, Len(hist)>>

BothAgree == Agree(light, "1e-40")
Normed == hist # <<>> /\ hist[Len(hist)][1] = "set" /\ hist[Len(hist)][2] # "jones" => Close(Sq2(light.j[1]) (+) Sq2(light.j[2]), 1, "1e-40", 0)
LastSet == LET sets == SelectSeq(hist, LAMBDA h : h[1] = "set") IN
  sets = <<>> \/ LET h == sets[Len(sets)] IN light = Light(h[2], Vec(h[2], h[3]))
Snapshots == \A i \in 1..Len(results) : Agree(results[i], "1e-40")
(* the polarisation does not depend on a phase or a scale of the Jones vector, nor on unpolarised light added *)
PhaseFree == SamePoint(Point(StokesOf(<<light.j[1] (.) Cx("-2", "1/3"), light.j[2] (.) Cx("-2", "1/3")>>)), Point(light.s), "1e-40")
Diluted == SamePoint(Point(StokesOf(JonesOf([light.s EXCEPT ![1] = light.s[1] (.) 3]))), Point(light.s), "1e-40")
Pass == \A i \in 1..2 : LET M == << <<N("1/2"), Cx(0, "1/5")>>, <<N("1/7"), N(1)>> >> IN
  Sound(M, light.j) => Close(RhoFor(M, light.j), RhoFor(M, JonesOf(light.s)), "1e-35", "1e-35")
Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))
Pick(S) == {RandomElement(S)}
GenNext == Len(hist) < MaxSteps /\ \E c \in Pick(1..8) :
  IF c <= 3 THEN \E k \in Pick({"jones", "stokes", "none"}) : \E i \in Pick(1..(Count(k) + (IF k = "none" THEN 0 ELSE Free))) : held' = Diagonal /\ UNCHANGED <<light, results>> /\ Log(<<"set", k, i>>)
  ELSE IF c = 4 /\ hist # <<>> THEN Spoil ELSE IF c <= 6 \/ results = <<>> THEN Evaluate ELSE Reread
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
