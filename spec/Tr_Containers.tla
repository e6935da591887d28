---------------------------- MODULE Tr_Containers ----------------------------
(***************************************************************************)
(* Recorded histories of real layer containers against Containers, and the *)
(* optical answer of a structure against Berreman on its profile.          *)
(*   mat      id m                    a material                           *)
(*   make     id obj err              a constructor call                   *)
(*   call     id op a err             a setter call                        *)
(*   reject   what err                a call that has to be refused        *)
(*   profile  id err slices           get_permittivity_profile             *)
(*   tensor   id z eps                get_tensor of an inhomogeneous layer *)
(*   cuts     id z                    get_slices                           *)
(*   evaluate id theta lbda; answer id err r t      Structure.evaluate     *)
(***************************************************************************)
EXTENDS Containers, Berreman, Tensor, TraceBase

VARIABLE mats
vars == <<objs, mats, berVars, l>>
Quiet == UNCHANGED <<berVars>>

Tol == "1e-9"
Init == l = 1 /\ objs = <<>> /\ mats = <<>> /\ n0 = N(1) /\ kx = N(0) /\ T = MId(4)

ModAt(f, x) ==
  CASE f = "id" -> N(x)
    [] f = "sq" -> Sq(x)
    [] f = "rev" -> N(1) (-) x
    [] f = "half" -> N("1/2")
    [] f = "step" -> IF NLt(x, "1/2") THEN N(0) ELSE N(1)
    [] f = "cos" -> (N(1) (-) NCos(NPi (.) x)) (/) 2

RECURSIVE MatTensor(_)
MatTensor(m) ==
  LET x == mats[m] IN
  IF x.kind = "mix" THEN MAdd(MScale(N(1) (-) x.fraction, MatTensor(x.host)), MScale(N(x.fraction), MatTensor(x.guest)))
  ELSE IF x.kind = "full" THEN MNum(x.eps)
  ELSE TensorOf(x.diag, x.rot)
Mixed(m, f) == LET x == mats[m] IN MAdd(MScale(N(1) (-) f, MatTensor(x.host)), MScale(f, MatTensor(x.guest)))
Turned(m, a) == Rotated(RotZ(Deg(a)), MatTensor(m))
SliceTensor(s) ==
  CASE s.how[1] = "as" -> MatTensor(s.mat)
    [] s.how[1] = "turn" -> Turned(s.mat, s.how[2])
    [] s.how[1] = "mix" -> Mixed(s.mat, ModAt(s.how[2], s.how[3]))

MatEv == Is("mat") /\ mats' = With(mats, Ev.id, Ev.m) /\ UNCHANGED objs /\ Quiet

MakeEv == /\ Is("make")
          /\ LET ok == OkMake(Ev.obj) IN
             /\ Chk("constructor-" \o Ev.obj.kind \o (IF ok THEN "-raises" ELSE "-accepts"), ok = (Ev.err = ""), Ev.err)
             /\ IF ok THEN Make(Ev.id, Ev.obj) ELSE UNCHANGED objs
          /\ UNCHANGED mats /\ Quiet

CallEv == /\ Is("call")
          /\ LET r == Call(Ev.id, Ev.op, Ev.a) IN
             /\ Chk(objs[Ev.id].kind \o "-" \o Ev.op \o (IF r[1] THEN "-raises" ELSE "-accepts"), r[1] = (Ev.err = ""), Ev.err)
             /\ SetIf(r[1], Ev.id, r[2])
          /\ UNCHANGED mats /\ Quiet

Reject == Is("reject") /\ Chk("accepts-" \o Ev.what, Ev.err # "", "no error") /\ UNCHANGED <<objs, mats>> /\ Quiet

Finite(m) == \A i, j \in 1..3 : IsNum(m[i][j])
JudgeSlice(k, i, got, s) ==
  /\ Chk(k \o "-slice-thickness", IF s.d = "inf" THEN got.d = "inf" ELSE Close(got.d, s.d, "1e-12", Tol),
         "slice " \o ToString(i) \o " observed " \o got.d)
  /\ IF s.d # "inf" /\ NEq(s.d, 0) /\ s.how[1] # "as"
     THEN Chk(k \o "-slice-tensor-finite", Finite(got.eps), "slice " \o ToString(i))
     ELSE Chk(k \o "-slice-tensor", MClose(got.eps, SliceTensor(s), Tol, Tol), "slice " \o ToString(i))

ProfileEv == /\ Is("profile")
             /\ LET k == objs[Ev.id].kind p == Profile(Ev.id) IN
                IF Ev.err # "" THEN Chk(k \o "-profile-raises", FALSE, Ev.err)
                ELSE IF Len(Ev.slices) # Len(p)
                THEN Chk(k \o "-profile-length", FALSE, "observed " \o ToString(Len(Ev.slices)) \o ", specified " \o ToString(Len(p)))
                ELSE \A i \in 1..Len(p) : JudgeSlice(k, i, Ev.slices[i], p[i])
             /\ UNCHANGED <<objs, mats>> /\ Quiet

TensorEv == /\ Is("tensor")
            /\ LET x == objs[Ev.id] z == N(Ev.z) (/) x.d
                   want == IF x.kind = "twist" THEN Turned(x.mat, x.angle (.) z) ELSE Mixed(x.mat, ModAt(x.mod, z))
               IN Chk(x.kind \o "-get_tensor", IF Ev.err # "" THEN FALSE ELSE MClose(Ev.eps, want, Tol, Tol), Ev.err)
            /\ UNCHANGED <<objs, mats>> /\ Quiet

CutsEv == /\ Is("cuts")
          /\ LET x == objs[Ev.id] IN
             IF Len(Ev.z) # x.div + 1 THEN Chk(x.kind \o "-get_slices", FALSE, "length")
             ELSE \A i \in 0..x.div : ChkNum(x.kind \o "-get_slices", Ev.z[i + 1], (x.d (.) i) (/) x.div, Tol, Tol)
          /\ UNCHANGED <<objs, mats>> /\ Quiet

(* the matrix of a whole profile *)
RECURSIVE Through(_, _, _, _)
Through(p, i, k, lam) ==
  IF i > Len(p) - 1 THEN MId(4)
  ELSE MMul(LayerT(SliceTensor(p[i]), k, p[i].d, lam), Through(p, i + 1, k, lam))
EvaluateEv ==
  /\ Is("evaluate")
  /\ UNCHANGED <<objs, mats>>
  /\ LET p == Profile(Ev.id)
         f == NSqrt(SliceTensor(p[1])[1][1])
         k == Force(f (.) NSin(Deg(Ev.theta)))
     IN n0' = Force(f) /\ kx' = k /\ T' = Through(p, 2, k, N(Ev.lbda))
AnswerEv ==
  /\ Is("answer")
  /\ IF Ev.err # "" THEN Chk("evaluate-raises", FALSE, Ev.err)
     ELSE LET p == Profile(Ev.id) a == LeaveIso(NSqrt(SliceTensor(p[Len(p)])[1][1]))
          IN \A i, j \in 1..2 :
               /\ ChkNum("evaluate-r" \o ToString(i) \o ToString(j), Ev.r[i][j], a.r[i][j], "1e-7", "1e-6")
               /\ ChkNum("evaluate-t" \o ToString(i) \o ToString(j), Ev.t[i][j], a.t[i][j], "1e-7", "1e-6")
  /\ UNCHANGED <<objs, mats, berVars>>

Fresh == Is("case") /\ objs' = <<>> /\ mats' = <<>> /\ Quiet
Next == Fresh \/ MatEv \/ MakeEv \/ CallEv \/ Reject \/ ProfileEv \/ TensorEv \/ CutsEv \/ EvaluateEv \/ AnswerEv
Spec == Init /\ [][Next]_vars
=============================================================================
