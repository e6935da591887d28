------------------------------ MODULE Tr_Materials ------------------------------
(***************************************************************************)
(* Recorded histories of real materials against Materials.                 *)
(*   case;  disp id d                                                      *)
(*   new | setdisp id kind args err;  setrot id rot err                    *)
(*   mix id rule host guest f err;  setfrac id f err;  setpair id host guest err *)
(*   ask w err v       the tensors of all materials at the wavelengths w   *)
(*   askf id f err v   get_tensor_fraction at the last w                   *)
(*   index id err v    get_refractive_index at the last w                  *)
(*   rotfn rot m       a rotation matrix                                   *)
(* A mixture is judged against the recorded tensors of its constituents.   *)
(***************************************************************************)
EXTENDS Materials, TraceBase
VARIABLES desc, asked
D == INSTANCE Dispersion
vars == <<mats, desc, asked, l>>
None == [w |-> <<>>, v |-> <<>>]
Init == l = 1 /\ mats = <<>> /\ desc = <<>> /\ asked = None
Same == UNCHANGED <<desc, asked>>
Fresh == Is("case") /\ mats' = <<>> /\ desc' = <<>> /\ asked' = None
DispEv == Is("disp") /\ desc' = (Ev.id :> Ev.d) @@ desc /\ UNCHANGED <<mats, asked>>
IsDisp(x) == x \in DOMAIN desc

Judge(clause, ok) == Chk(clause \o (IF ok THEN "-raises" ELSE "-accepted"), ok = (Ev.err = ""), Ev.id \o " " \o Ev.err)
NewEv == Is("new") /\ Judge("new", OkDisp(Ev.kind, Ev.args, IsDisp)) /\ NewSingle(Ev.id, Ev.kind, Ev.args, IsDisp) /\ Same
SetDispEv == Is("setdisp") /\ Judge("set_dispersion", OkDisp(mats[Ev.id].kind, Ev.args, IsDisp)) /\ SetDisp(Ev.id, Ev.args, IsDisp) /\ Same
SetRotEv == Is("setrot") /\ Judge("set_rotation", TRUE) /\ SetRot(Ev.id, Ev.rot) /\ Same
MixEv == Is("mix") /\ Judge("mixture", OkPair(Ev.host, Ev.guest) /\ OkFraction(Ev.f)) /\ NewMix(Ev.id, Ev.rule, Ev.host, Ev.guest, Ev.f) /\ Same
SetFracEv == Is("setfrac") /\ Judge("set_fraction", OkFraction(Ev.f)) /\ SetFraction(Ev.id, Ev.f) /\ Same
SetPairEv == Is("setpair") /\ Judge("set_constituents", OkPair(Ev.host, Ev.guest)) /\ SetPair(Ev.id, Ev.host, Ev.guest) /\ Same

(* what is read off a diagonal tensor has no more than rounding elsewhere *)
TensorScale(d) == NMax(NMax(NAbs(d[1]), NAbs(d[2])), NAbs(d[3]))
ChkTensor(clause, got, want, at, info) ==
  \A i, j \in 1..3 : IF IsNum(want[i][j]) THEN
    Chk(clause, Close(got[i][j], want[i][j], at, "1e-7"),
        info \o " element " \o ToString(<<i, j>>) \o " observed " \o Show(got[i][j]) \o ", specified " \o Show(want[i][j])) ELSE TRUE
ChkSingle(id, m, w, got) ==
  LET d == Force([i \in 1..3 |-> D!Eps(desc[Axes(m)[i]], w)]) IN
  IF \A i \in 1..3 : IsNum(d[i])
  THEN ChkTensor(m.kind \o "-tensor", got, TensorOf(d, m.rot), N("1e-7") (.) TensorScale(d), id \o " rotation " \o ToString(m.rot)) ELSE TRUE

(* mixing, element by element *)
Flat(x, s) == IF NLeq(NAbs(Im(x)), N("1e-9") (.) s) THEN Cx(Re(x), 0) ELSE N(x)
NegReal(x) == NEq(Im(x), 0) /\ NLt(Re(x), 0)
(* the cube root of a negative real number: either side of the cut *)
Sides(x) == IF NegReal(x) THEN {Cbrt(x), Conj(Cbrt(x))} ELSE {Cbrt(x)}
OneHalf(a, b) == (Upper(a) /\ Upper(b)) \/ (Lower(a) /\ Lower(b))
Within(x, y, at) == NLeq(NAbs(N(x) (-) y), at)
BrTol(eh, eg, f) ==
  LET s == Size(eh, eg) r == NAbs(BrRoot(eh, eg, f))
      a == IF NEq(r, 0) THEN N("1e-7") (.) s ELSE (N("1e-12") (.) s) (+) ((N("1e-14") (.) Sq(s)) (/) r)
  IN NMin(N("1e-6") (.) s, a)
BrGood(eh, eg, f, x) ==
  LET s == Size(eh, eg)
      at == (BrTol(eh, eg, f)) (+) "1e-300"
      a == Flat(eh, s)  b == Flat(eg, s)
      r == BrRoots(eh, eg, f)
  IN IF NEq(f, 0) THEN Within(x, eh, at)
     ELSE IF NEq(f, 1) THEN Within(x, eg, at)
     ELSE \/ Within(x, Physical(eh, eg, f), at)
          \/ OneHalf(a, b) /\ Within(x, Nearer(Physical(a, b, f), r[1], r[2]), at)
          \/ ~OneHalf(a, b) /\ (Within(x, r[1], at) \/ Within(x, r[2], at))
MixGood(rule, eh, eg, f, x) ==
  IF rule = "bruggeman" THEN BrGood(eh, eg, f, x)
  ELSE IF rule = "looyenga" THEN \E p \in Sides(eh), q \in Sides(eg) : Close(x, Cube(Mean(p, q, f)), (N("1e-11") (.) Size(eh, eg)) (+) "1e-300", "1e-9")
  ELSE LET want == Mix(rule, eh, eg, f) IN
    IF ~IsNum(want) THEN TRUE
    ELSE IF rule = "vca" THEN Within(x, want, (N("1e-13") (.) Size(eh, eg)) (+) "1e-300")
    ELSE LET den == ((2 (.) N(eh)) (+) eg) (-) (N(f) (.) (N(eg) (-) eh)) IN     \* near its pole the value is badly conditioned
         Within(x, want, ((N("1e-13") (.) (Size(eh, eg) (+) NAbs(want))) (.) (N(1) (+) (IF NEq(den, 0) THEN N(1) ELSE Size(eh, eg) (/) NAbs(den)))) (+) "1e-300")
ChkMix(clause, m, f, th, tg, got, info) ==
  \A i, j \in 1..3 : IF IsNum(th[i][j]) /\ IsNum(tg[i][j]) THEN
    Chk(clause, MixGood(m.kind, th[i][j], tg[i][j], f, got[i][j]),
        info \o " f=" \o Show(f) \o " element " \o ToString(<<i, j>>) \o " of " \o Show(th[i][j]) \o " and " \o Show(tg[i][j]) \o " observed " \o Show(got[i][j])
        \o ", specified " \o Show(Mix(m.kind, th[i][j], tg[i][j], f))) ELSE TRUE
(* passive media mix to a passive medium *)
Absorbs(t) == \A i \in 1..3 : Upper(t[i][i])
ChkPassive(m, th, tg, got, info) ==
  IF Absorbs(th) /\ Absorbs(tg) /\ \A i \in 1..3 : NLt("1e-3", NAbs(((2 (.) N(th[i][i])) (+) tg[i][i]) (-) (N(m.f) (.) (N(tg[i][i]) (-) th[i][i]))))
  THEN \A i \in 1..3 : Chk(m.kind \o "-active", NLeq(N("-1e-7") (.) Size(th[i][i], tg[i][i]), Im(got[i][i])), info \o " observed " \o Show(got[i][i])) ELSE TRUE

ValidTensor(v, n) == Len(v) = n /\ \A k \in 1..n : Len(v[k]) = 3 /\ \A i \in 1..3 : Len(v[k][i]) = 3
AskEv ==
  /\ Is("ask")
  /\ \A id \in Known :
       Chk("tensor-raises", Ev.err[id] = "", id \o " " \o Ev.err[id])
  /\ \A id \in Known : IF Ev.err[id] # "" THEN TRUE
       ELSE IF ~ValidTensor(Ev.v[id], Len(Ev.w)) THEN Chk("tensor-shape", FALSE, id)
       ELSE LET m == mats[id] IN \A k \in 1..Len(Ev.w) :
         IF m.kind \notin Rules THEN ChkSingle(id, m, Ev.w[k], Ev.v[id][k])
         ELSE IF Ev.err[m.host] # "" \/ Ev.err[m.guest] # "" THEN TRUE
         ELSE LET th == Ev.v[m.host][k] tg == Ev.v[m.guest][k] IN
           /\ ChkMix(m.kind, m, m.f, th, tg, Ev.v[id][k], id)
           /\ ChkPassive(m, th, tg, Ev.v[id][k], id)
  /\ asked' = [w |-> Ev.w, v |-> Ev.v] /\ UNCHANGED <<mats, desc>>
AskFEv ==
  /\ Is("askf")
  /\ Chk("get_tensor_fraction-raises", Ev.err = "", Ev.id)
  /\ LET m == mats[Ev.id] IN
     IF Ev.err # "" THEN TRUE
     ELSE IF ~ValidTensor(Ev.v, Len(asked.w)) THEN Chk("tensor-shape", FALSE, Ev.id)
     ELSE \A k \in 1..Len(asked.w) : ChkMix("fraction-" \o m.kind, m, Ev.f, asked.v[m.host][k], asked.v[m.guest][k], Ev.v[k], Ev.id)
  /\ UNCHANGED <<mats, desc, asked>>
IndexEv ==
  /\ Is("index")
  /\ Chk("get_refractive_index-raises", Ev.err = "", Ev.id)
  /\ IF Ev.err # "" THEN TRUE
     ELSE IF ~ValidTensor(Ev.v, Len(asked.w)) THEN Chk("index-shape", FALSE, Ev.id)
     ELSE \A k \in 1..Len(asked.w), i \in 1..3 :
       LET e == asked.v[Ev.id][k][i][i] x == Ev.v[k][i][i] IN
       IF ~IsNum(e) THEN TRUE
       ELSE Chk("index", Close(Sq(x), e, (N("1e-12") (.) NAbs(e)) (+) "1e-300", 0) /\ NLeq(0, Re(x)), Ev.id \o " of " \o Show(e) \o " observed " \o Show(x))
  /\ UNCHANGED <<mats, desc, asked>>
RotEv ==
  /\ Is("rotfn")
  /\ IF Ev.err # "" THEN Chk("rotation-raises", FALSE, Ev.err \o ToString(Ev.rot))
     ELSE LET R == Rotation(Ev.rot) IN
          Chk("rotation-" \o Ev.rot.kind, MClose(Ev.m, R, "1e-12", 0), ToString(Ev.rot))
  /\ UNCHANGED <<mats, desc, asked>>
Next == Fresh \/ DispEv \/ NewEv \/ SetDispEv \/ SetRotEv \/ MixEv \/ SetFracEv \/ SetPairEv \/ AskEv \/ AskFEv \/ IndexEv \/ RotEv
Spec == Init /\ [][Next]_vars
=============================================================================
