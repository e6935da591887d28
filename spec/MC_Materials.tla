------------------------------ MODULE MC_Materials ------------------------------
(* Materials are made, changed and mixed; bad requests come in between.          *)
EXTENDS Materials, FiniteSets, Json
CONSTANTS MaxSteps, Kinds, Disps, Rots, Fractions, Rich
VARIABLES hist
vars == <<mats, hist>>

V == "d1" :> N(2) @@ "d2" :> N(3) @@ "d3" :> N("5|1") @@ "d4" :> N("-4|0.5")
View == <<mats, Len(hist)>>
IsDisp(x) == x \in DOMAIN V
Args == Disps \cup {"bad"}
Seqs(n) == IF n < 3 THEN [1..n -> Args] ELSE {<<a, b, a>> : a, b \in Args}
RotOf == "e1" :> [kind |-> "euler", a |-> <<30, 0, 0>>] @@ "e2" :> [kind |-> "euler", a |-> <<"-20", 90, 50>>]
      @@ "e3" :> [kind |-> "euler", a |-> <<0, 40, 0>>]
      @@ "v1" :> [kind |-> "v", a |-> <<0, "0.7", "-0.2">>]
      @@ "vt1" :> [kind |-> "vt", a |-> <<"3/5", 0, "4/5", 120>>] @@ "vt0" :> [kind |-> "vt", a |-> <<0, 0, 1, 0>>]
New == "m" \o ToString(Len(hist))
Note(x) == hist' = Append(hist, x)
Singles == {x \in Known : mats[x].kind \notin Rules}
Mixtures == {x \in Known : mats[x].kind \in Rules}
(* x is made of y *)
RECURSIVE Uses(_, _)
Uses(x, y) == x = y \/ (mats[x].kind \in Rules /\ (Uses(mats[x].host, y) \/ Uses(mats[x].guest, y)))

Init == mats = <<>> /\ hist = <<>>
NewS(kind, ds) == NewSingle(New, kind, ds, IsDisp) /\ Note([op |-> "new", id |-> New, kind |-> kind, args |-> ds])
SetD(x, ds) == SetDisp(x, ds, IsDisp) /\ Note([op |-> "setdisp", id |-> x, args |-> ds])
SetR(x, r) == SetRot(x, RotOf[r]) /\ Note([op |-> "setrot", id |-> x, rot |-> RotOf[r]])
NewM(r, h, g, f) == NewMix(New, r, h, g, f) /\ Note([op |-> "mix", id |-> New, rule |-> r, host |-> h, guest |-> g, f |-> f])
SetF(x, f) == SetFraction(x, f) /\ Note([op |-> "setfrac", id |-> x, f |-> f])
SetP(x, h, g) == SetPair(x, h, g) /\ Note([op |-> "setpair", id |-> x, host |-> h, guest |-> g])
Hosts(x) == {y \in Known : ~Uses(y, x)} \cup {"bad"}
Next == Len(hist) < MaxSteps /\
  ( \/ \E k \in Kinds : \E ds \in Seqs(Arity[k]) \cup (IF Rich THEN Seqs(2) ELSE {}) : NewS(k, ds)
    \/ \E x \in Singles : \E ds \in Seqs(Arity[mats[x].kind]) : SetD(x, ds)
    \/ \E x \in Singles, r \in Rots : SetR(x, r)
    \/ \E r \in Rules, h, g \in Known \cup {"bad"}, f \in Fractions : NewM(r, h, g, f)
    \/ \E x \in Mixtures, f \in Fractions : SetF(x, f)
    \/ \E x \in Mixtures : \E h, g \in Hosts(x) : SetP(x, h, g) )
Spec == Init /\ [][Next]_vars

T(x) == TensorIn(mats, x, V)
(* the invariants of a tensor under rotation determine its eigenvalues *)
Tr(A) == NSumSeq([i \in 1..3 |-> A[i][i]])
Eigen == \A x \in Singles :
  LET d == [i \in 1..3 |-> V[Axes(mats[x])[i]]]  A == T(x) B == MMul(A, A) S(p) == NSumSeq([i \in 1..3 |-> NPow(d[i], p)]) IN
  /\ Close(Tr(A), S(1), "1e-50", 0) /\ Close(Tr(B), S(2), "1e-50", 0) /\ Close(Tr(MMul(A, B)), S(3), "1e-50", 0)
Symmetric == \A x \in Known : MClose(T(x), MT(T(x)), "1e-40", 0)
Proper(R) ==
  /\ MClose(MMul(R, MT(R)), MId(3), "1e-50", 0)
  /\ LET C == << (R[1][2] (.) R[2][3]) (-) (R[1][3] (.) R[2][2]), (R[1][3] (.) R[2][1]) (-) (R[1][1] (.) R[2][3]), (R[1][1] (.) R[2][2]) (-) (R[1][2] (.) R[2][1]) >>
     IN \A j \in 1..3 : Close(R[3][j], C[j], "1e-50", 0)
Back(r) == CASE r.kind = "euler" -> [r EXCEPT !.a = <<NNeg(r.a[3]), NNeg(r.a[2]), NNeg(r.a[1])>>]
             [] r.kind = "v" -> [r EXCEPT !.a = [i \in 1..3 |-> NNeg(r.a[i])]]
             [] r.kind = "vt" -> [r EXCEPT !.a = [@ EXCEPT ![4] = NNeg(r.a[4])]]
             [] OTHER -> r
Rotations == \A x \in Singles : LET r == mats[x].rot R == Rotation(r) IN
  /\ Proper(R)
  /\ MClose(MMul(Rotation(Back(r)), R), MId(3), "1e-50", 0)
  /\ MClose(Rotated(Rotation(Back(r)), T(x)), Diag([i \in 1..3 |-> V[Axes(mats[x])[i]]]), "1e-50", 0)
  /\ \A s \in Rots : LET S == Rotation(RotOf[s]) IN MClose(Rotated(S, T(x)), Rotated(MMul(S, R), Diag([i \in 1..3 |-> V[Axes(mats[x])[i]]])), "1e-50", 0)
Isotropic == \A x \in Singles : mats[x].kind = "iso" => MClose(T(x), Diag([i \in 1..3 |-> V[mats[x].disp[1]]]), "1e-50", 0)
WellMade == \A x \in Known : IF mats[x].kind \in Rules THEN {mats[x].host, mats[x].guest} \subseteq Known /\ OkFraction(mats[x].f) ELSE OkDisp(mats[x].kind, mats[x].disp, IsDisp)
Ends == \A x \in Mixtures : LET m == mats[x] IN
  /\ NEq(m.f, 0) => MClose(T(x), T(m.host), "1e-35", 0)
  /\ NEq(m.f, 1) => MClose(T(x), T(m.guest), "1e-35", 0)
  /\ m.host = m.guest => MClose(T(x), T(m.host), "1e-35", 0)
Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))

(* for simulation: valid requests with a few bad ones *)
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Seldom == RandomElement(1..8) = 1
D1 == RandomElement(IF Seldom THEN Args ELSE Disps)
Ds(n) == [i \in 1..n |-> RandomElement(IF RandomElement(1..12) = 1 THEN Args ELSE Disps)]
GenNext == Len(hist) < MaxSteps /\
  ( IF Cardinality(Singles) < 2 THEN \E k \in Pick(DOMAIN Arity) : \E ds \in {Ds(IF RandomElement(1..10) = 1 THEN 2 ELSE Arity[k])} : NewS(k, ds)
    ELSE \E c \in {RandomElement(1..9)} :
         IF c = 1 THEN \E k \in Pick(DOMAIN Arity) : \E ds \in {Ds(Arity[k])} : NewS(k, ds)
         ELSE IF c \in 2..3 THEN \E x \in Pick(Singles) : \E ds \in {Ds(Arity[mats[x].kind])} : SetD(x, ds)
         ELSE IF c \in 4..5 THEN \E x \in Pick(Singles) : \E r \in Pick(DOMAIN RotOf) : SetR(x, r)
         ELSE IF c \in 6..7 \/ Mixtures = {} THEN \E r \in Pick(Rules) : \E h \in Pick(IF Seldom THEN Known \cup {"bad"} ELSE Known) : \E g \in Pick(Known) : \E f \in Pick(Fractions) : NewM(r, h, g, f)
         ELSE IF c = 8 THEN \E x \in Pick(Mixtures) : \E f \in Pick(Fractions) : SetF(x, f)
         ELSE \E x \in Pick(Mixtures) : \E h \in Pick(Hosts(x)) : \E g \in Pick(IF Seldom THEN Hosts(x) ELSE Hosts(x) \ {"bad"}) : SetP(x, h, g) )
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
