------------------------------- MODULE Materials -------------------------------
(***************************************************************************)
(* Materials.  mats maps a name to                                         *)
(*   [kind |-> "iso"|"uni"|"bi", disp |-> names of dispersions, rot]       *)
(*   [kind |-> "vca"|"looyenga"|"mg"|"bruggeman", host, guest, f]          *)
(* rot is the rotation last set ([kind |-> "none"] before the first).      *)
(* A refused request changes nothing.                                      *)
(***************************************************************************)
EXTENDS Tensor, TLC
VARIABLE mats

Rules == {"vca", "looyenga", "mg", "bruggeman"}
Arity == "iso" :> 1 @@ "uni" :> 2 @@ "bi" :> 3
NoRot == [kind |-> "none", a |-> <<>>]
Known == DOMAIN mats
PutMat(id, m) == mats' = (id :> m) @@ mats

(* ds: the arguments; isd(x): x is a dispersion *)
OkDisp(kind, ds, isd(_)) == Len(ds) = Arity[kind] /\ \A i \in 1..Len(ds) : isd(ds[i])
NewSingle(id, kind, ds, isd(_)) == IF OkDisp(kind, ds, isd) THEN PutMat(id, [kind |-> kind, disp |-> ds, rot |-> NoRot]) ELSE UNCHANGED mats
SetDisp(id, ds, isd(_)) == IF OkDisp(mats[id].kind, ds, isd) THEN PutMat(id, [mats[id] EXCEPT !.disp = ds]) ELSE UNCHANGED mats
SetRot(id, r) == PutMat(id, [mats[id] EXCEPT !.rot = r])
OkFraction(f) == NLeq(0, f) /\ NLeq(f, 1)
OkPair(h, g) == h \in Known /\ g \in Known
NewMix(id, rule, h, g, f) == IF OkPair(h, g) /\ OkFraction(f) THEN PutMat(id, [kind |-> rule, host |-> h, guest |-> g, f |-> f]) ELSE UNCHANGED mats
SetFraction(id, f) == IF OkFraction(f) THEN PutMat(id, [mats[id] EXCEPT !.f = f]) ELSE UNCHANGED mats
SetPair(id, h, g) == IF OkPair(h, g) THEN PutMat(id, [mats[id] EXCEPT !.host = h, !.guest = g]) ELSE UNCHANGED mats

(* the dispersions along the three axes *)
Axes(m) == CASE m.kind = "iso" -> <<m.disp[1], m.disp[1], m.disp[1]>>
             [] m.kind = "uni" -> <<m.disp[1], m.disp[1], m.disp[2]>>
             [] m.kind = "bi" -> m.disp

(* ---------------- mixing rules, element by element ---------------- *)
Cbrt(x) == IF NEq(x, 0) THEN N(0) ELSE IF NEq(x, 1) THEN N(1) ELSE NExp(NLn(x) (/) 3)
Mean(eh, eg, f) == ((N(1) (-) f) (.) eh) (+) (N(f) (.) eg)
Cube(x) == NPow(x, 3)
Looyenga(eh, eg, f) == Cube(Mean(Cbrt(eh), Cbrt(eg), f))
MaxwellGarnett(eh, eg, f) ==
  IF NEq(f, 0) THEN N(eh)
  ELSE IF NEq(eh, 0) THEN (IF NEq(f, 1) THEN N(eg) ELSE N(0))
  ELSE LET d == N(eg) (-) eh IN
    (N(eh) (.) (((2 (.) N(f)) (.) d) (+) (N(eg) (+) (2 (.) N(eh)))))
    (/) (((2 (.) N(eh)) (+) eg) (-) (N(f) (.) d))
(* 2 x^2 + ((3f-2) eh + (1-3f) eg) x - eh eg = 0 *)
BrCentre(eh, eg, f) == ((((N(2) (-) (3 (.) N(f))) (.) eh) (+) (((3 (.) N(f)) (-) 1) (.) eg))) (/) 4
BrRoot(eh, eg, f) == NSqrt(Sq(BrCentre(eh, eg, f)) (+) ((N(eh) (.) eg) (/) 2))
BrRoots(eh, eg, f) == << BrCentre(eh, eg, f) (+) BrRoot(eh, eg, f), BrCentre(eh, eg, f) (-) BrRoot(eh, eg, f) >>
BrResidual(eh, eg, f, x) == ((2 (.) Sq(x)) (+) ((((3 (.) N(f)) (-) 2) (.) eh) (+) ((N(1) (-) (3 (.) N(f))) (.) eg)) (.) x) (-) (N(eh) (.) eg)
Size(eh, eg) == NAbs(eh) (+) NAbs(eg)
(* the passive root: of media with a trace of absorption, the root that absorbs *)
Nearer(p, x, y) == IF NLeq(NAbs(p (-) x), NAbs(p (-) y)) THEN x ELSE y
PassiveRoot(eh, eg, f) ==
  LET eta == Cx(0, "1e-12") (.) Size(eh, eg)
      s == BrRoots(N(eh) (+) eta, N(eg) (+) eta, f)
      p == IF NLeq(Im(s[2]), Im(s[1])) THEN s[1] ELSE s[2]
      r == BrRoots(eh, eg, f)
  IN Nearer(p, r[1], r[2])
(* off-diagonal elements may lie in the other half-plane, or one in either: then the root continued from the ends f = 0 and f = 1 *)
Upper(x) == NLeq(0, Im(x))
Lower(x) == NLeq(Im(x), 0)
Continued(eh, eg, f) ==
  LET a == NSqrt(eh)  b == NSqrt(eg)
      p == a (.) (IF NLt(Re(a (.) Conj(b)), 0) THEN NNeg(b) ELSE b)
  IN IF NLeq(0, Re(BrRoot(eh, eg, f) (.) Conj(p))) THEN BrRoots(eh, eg, f)[1] ELSE BrRoots(eh, eg, f)[2]
Physical(eh, eg, f) ==
  IF Upper(eh) /\ Upper(eg) THEN PassiveRoot(eh, eg, f)
  ELSE IF Lower(eh) /\ Lower(eg) THEN Conj(PassiveRoot(Conj(eh), Conj(eg), f))
  ELSE Continued(eh, eg, f)
Mix(rule, eh, eg, f) ==
  CASE rule = "vca" -> Mean(eh, eg, f)
    [] rule = "looyenga" -> Looyenga(eh, eg, f)
    [] rule = "mg" -> MaxwellGarnett(eh, eg, f)
    [] rule = "bruggeman" -> Physical(eh, eg, f)
MixTensor(rule, th, tg, f) == [i \in 1..3 |-> [j \in 1..3 |-> Mix(rule, th[i][j], tg[i][j], f)]]

(* the tensor, V giving the permittivity of a dispersion *)
RECURSIVE TensorIn(_, _, _)
TensorIn(ms, id, V) ==
  LET m == ms[id] IN
  IF m.kind \in Rules THEN MixTensor(m.kind, TensorIn(ms, m.host, V), TensorIn(ms, m.guest, V), m.f)
  ELSE TensorOf(<<V[Axes(m)[1]], V[Axes(m)[2]], V[Axes(m)[3]]>>, m.rot)
=============================================================================
