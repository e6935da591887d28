-------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* Dispersions, materials, layers, structures and experiments as objects   *)
(* that refer to one another, changed by setters, and evaluated.           *)
(* What an evaluation depends on is the tree of everything reachable from  *)
(* the object at that moment; a result keeps that tree for ever.  An       *)
(* object may be shared; a copy shares nothing with its original.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

(* disp[i] = [cls, single, reps]; single a sequence of <<name, value>>, reps a sequence of such *)
(* mat[i]  = [kind, disp, rot, host, guest, frac]; kinds iso, uni (two dispersions), mix *)
(* layer[i] = [kind, mat, d, div, angle, kids, n]; kinds layer, twist, rep *)
(* struct  = [front, kids, back];  exp = [lbda, theta, vec] *)
DispTree(w, i) == <<"disp", w.disp[i].cls, w.disp[i].single, w.disp[i].reps>>
RECURSIVE MatTree(_, _)
MatTree(w, i) == LET m == w.mat[i] IN
  IF m.kind = "mix" THEN <<"mix", m.rule, MatTree(w, m.host), MatTree(w, m.guest), m.frac>>
  ELSE <<m.kind, [k \in 1..Len(m.disp) |-> DispTree(w, m.disp[k])], m.rot>>
RECURSIVE LayerTree(_, _)
LayerTree(w, i) == LET y == w.layer[i] IN
  IF y.kind = "rep" THEN <<"rep", [k \in 1..Len(y.kids) |-> LayerTree(w, y.kids[k])], y.n>>
  ELSE IF y.kind = "twist" THEN <<"twist", MatTree(w, y.mat), y.d, y.div, y.angle>>
  ELSE <<"layer", MatTree(w, y.mat), y.d>>
StructTree(w) == <<"structure", MatTree(w, w.struct.front), [k \in 1..Len(w.struct.kids) |-> LayerTree(w, w.struct.kids[k])], MatTree(w, w.struct.back)>>
ExpTree(w) == <<"experiment", StructTree(w), w.exp.lbda, w.exp.theta, w.exp.vec>>

(* setters *)
PutSingle(pairs, n, v) == [k \in 1..Len(pairs) |-> IF pairs[k][1] = n THEN <<n, v>> ELSE pairs[k]]
SetSingle(w, i, n, v) == [w EXCEPT !.disp[i].single = PutSingle(@, n, v)]
SetRep(w, i, j, n, v) == [w EXCEPT !.disp[i].reps[j] = PutSingle(@, n, v)]
AddRep(w, i, pairs) == [w EXCEPT !.disp[i].reps = Append(@, pairs)]
SetDisp(w, i, ds) == [w EXCEPT !.mat[i].disp = ds]
SetRot(w, i, r) == [w EXCEPT !.mat[i].rot = r]
SetFrac(w, i, f) == [w EXCEPT !.mat[i].frac = f]
SetPair(w, i, h, g) == [w EXCEPT !.mat[i].host = h, !.mat[i].guest = g]
SetThick(w, i, d) == [w EXCEPT !.layer[i].d = d]
SetMat(w, i, m) == [w EXCEPT !.layer[i].mat = m]
SetKids(w, i, ks) == [w EXCEPT !.layer[i].kids = ks]
SetReps(w, i, n) == [w EXCEPT !.layer[i].n = n]
SetAngle(w, i, a) == [w EXCEPT !.layer[i].angle = a]
SetFront(w, m) == [w EXCEPT !.struct.front = m]
SetBack(w, m) == [w EXCEPT !.struct.back = m]
SetLayers(w, ks) == [w EXCEPT !.struct.kids = ks]
SetTheta(w, t) == [w EXCEPT !.exp.theta = t]
SetLbda(w, x) == [w EXCEPT !.exp.lbda = x]
SetVec(w, v) == [w EXCEPT !.exp.vec = v]

(* an operation written as a sequence: name, then arguments *)
Apply(w, op) ==
  CASE op[1] = "single" -> SetSingle(w, op[2], op[3], op[4])
    [] op[1] = "reppar" -> SetRep(w, op[2], op[3], op[4], op[5])
    [] op[1] = "addrep" -> AddRep(w, op[2], op[3])
    [] op[1] = "disp" -> SetDisp(w, op[2], op[3])
    [] op[1] = "rot" -> SetRot(w, op[2], op[3])
    [] op[1] = "frac" -> SetFrac(w, op[2], op[3])
    [] op[1] = "pair" -> SetPair(w, op[2], op[3], op[4])
    [] op[1] = "thick" -> SetThick(w, op[2], op[3])
    [] op[1] = "mat" -> SetMat(w, op[2], op[3])
    [] op[1] = "kids" -> SetKids(w, op[2], op[3])
    [] op[1] = "reps" -> SetReps(w, op[2], op[3])
    [] op[1] = "angle" -> SetAngle(w, op[2], op[3])
    [] op[1] = "front" -> SetFront(w, op[2])
    [] op[1] = "back" -> SetBack(w, op[2])
    [] op[1] = "layers" -> SetLayers(w, op[2])
    [] op[1] = "theta" -> SetTheta(w, op[2])
    [] op[1] = "lbda" -> SetLbda(w, op[2])
    [] op[1] = "vec" -> SetVec(w, op[2])

(* who sees a change: everything that reaches the changed object, and nothing else *)
RECURSIVE MatReach(_, _)
MatReach(w, i) == LET m == w.mat[i] IN {<<"mat", i>>} \cup
  (IF m.kind = "mix" THEN MatReach(w, m.host) \cup MatReach(w, m.guest) ELSE {<<"disp", m.disp[k]>> : k \in 1..Len(m.disp)})
RECURSIVE LayerReach(_, _)
LayerReach(w, i) == LET y == w.layer[i] IN {<<"layer", i>>} \cup
  (IF y.kind = "rep" THEN UNION {LayerReach(w, y.kids[k]) : k \in 1..Len(y.kids)} ELSE MatReach(w, y.mat))
StructReach(w) == MatReach(w, w.struct.front) \cup MatReach(w, w.struct.back) \cup UNION {LayerReach(w, w.struct.kids[k]) : k \in 1..Len(w.struct.kids)}
Target(op) ==
  IF op[1] \in {"single", "reppar", "addrep"} THEN <<"disp", op[2]>>
  ELSE IF op[1] \in {"disp", "rot", "frac", "pair"} THEN <<"mat", op[2]>>
  ELSE IF op[1] \in {"thick", "mat", "kids", "reps", "angle"} THEN <<"layer", op[2]>>
  ELSE <<"experiment", 0>>
Sees(w, op) == Target(op) = <<"experiment", 0>> \/ Target(op) \in StructReach(w)
=============================================================================
