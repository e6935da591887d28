----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* Layers and containers of layers.                                        *)
(*                                                                         *)
(* The state is a store of objects; containers refer to objects, so a      *)
(* later change of a part shows in every container that has it.            *)
(*   layer  mat d                         homogeneous                      *)
(*   twist  mat d div angle               rotating about z                 *)
(*   vary   mat d div mod                 graded mixture                   *)
(*   rep    kids n before after           repeated sequence                *)
(*   stack  front kids back               a structure                      *)
(* Profile(o) is the sequence of homogeneous slices an object stands for;  *)
(* a slice is [d, mat, how] where how says what is done to the material:   *)
(* <<"as">>, <<"turn", angle>> or <<"mix", modulation, depth>>.            *)
(*                                                                         *)
(* A setter is refused - and then changes nothing - unless its arguments   *)
(* are in the domain.                                                      *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

VARIABLE objs
conVars == <<objs>>

Has(o) == o \in DOMAIN objs
With(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

(*------------------------------- domains --------------------------------*)
IsLayerId(o) == Has(o) /\ objs[o].kind \in {"layer", "twist", "vary", "rep"}
ThicknessOk(d) == NLeq(0, d)
DivOk(n) == n >= 1
RepOk(n, b, a) == n >= 1 /\ b >= 0 /\ a >= 0
KidsOk(kids) == \A i \in 1..Len(kids) : IsLayerId(kids[i])

(*------------------------------- meaning --------------------------------*)
Min2(a, b) == IF a < b THEN a ELSE b
Tail2(s, k) == SubSeq(s, Len(s) - Min2(k, Len(s)) + 1, Len(s))     \* the last k
Head2(s, k) == SubSeq(s, 1, Min2(k, Len(s)))                        \* the first k
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)

(* relative depth of the middle of slice i of n *)
Mid(i, n) == NDiv(2 * i - 1, 2 * n)

RECURSIVE Profile(_)
RECURSIVE Cat(_)
Cat(kids) == IF kids = <<>> THEN <<>> ELSE Profile(Head(kids)) \o Cat(Tail(kids))
Profile(o) ==
  LET x == objs[o] IN
  CASE x.kind = "layer" -> << [d |-> x.d, mat |-> x.mat, how |-> <<"as">>] >>
    [] x.kind = "twist" -> [i \in 1..x.div |-> [d |-> NDiv(x.d, x.div), mat |-> x.mat,
                                                how |-> <<"turn", NMul(x.angle, Mid(i, x.div))>>]]
    [] x.kind = "vary"  -> [i \in 1..x.div |-> [d |-> NDiv(x.d, x.div), mat |-> x.mat,
                                                how |-> <<"mix", x.mod, Mid(i, x.div)>>]]
    [] x.kind = "rep"   -> LET p == Cat(x.kids) IN Tail2(p, x.before) \o Times(p, x.n) \o Head2(p, x.after)
    [] x.kind = "stack" -> << [d |-> "inf", mat |-> x.front, how |-> <<"as">>] >> \o Cat(x.kids)
                           \o << [d |-> "inf", mat |-> x.back, how |-> <<"as">>] >>

Thickness(p) == NSumSeq([i \in 1..Len(p) |-> N(p[i].d)])

(*------------------------------- actions --------------------------------*)
(* Each setter as the pair (accepted?, new value).                         *)
Make(o, x) == objs' = With(objs, o, x)
SetIf(ok, o, x) == objs' = IF ok THEN With(objs, o, x) ELSE objs

OkMake(x) ==
  CASE x.kind = "layer" -> ThicknessOk(x.d)
    [] x.kind \in {"twist", "vary"} -> ThicknessOk(x.d) /\ DivOk(x.div)
    [] x.kind = "rep" -> RepOk(x.n, x.before, x.after) /\ KidsOk(x.kids)
    [] x.kind = "stack" -> KidsOk(x.kids)

(* what a call does: <<accepted, object afterwards>> *)
Call(o, op, a) ==
  LET x == objs[o] IN
  CASE op = "set_thickness" -> <<ThicknessOk(a[1]), [x EXCEPT !.d = a[1]]>>
    [] op = "set_divisions" -> <<DivOk(a[1]), [x EXCEPT !.div = a[1]]>>
    [] op = "set_angle"     -> <<TRUE, [x EXCEPT !.angle = a[1]]>>
    [] op = "set_fraction_modulation" -> <<TRUE, [x EXCEPT !.mod = a[1]]>>
    [] op = "set_repetitions" -> <<RepOk(a[1], a[2], a[3]), [x EXCEPT !.n = a[1], !.before = a[2], !.after = a[3]]>>
    [] op = "set_layers"    -> <<KidsOk(a), [x EXCEPT !.kids = a]>>
    [] op = "bad_argument"  -> <<FALSE, x>>           \* something of the wrong type
Do(o, op, a) == LET r == Call(o, op, a) IN SetIf(r[1], o, r[2])
=============================================================================
