-------------------------------- MODULE Formula --------------------------------
(***************************************************************************)
(* The formula language.  A formula is a sequence of tokens                *)
(*   <<"num", text>>  <<"name", n>>  <<"const", c>>  <<"fun", f>>          *)
(*   <<"op", o>>  o one of + - * / ** ( ) [ ]      <<"sum", "sum">>        *)
(* (anything else is not a token of the language).  Parse gives its tree   *)
(*   <<"num", v>> <<"name", n>> <<"const", c>> <<"fun", f, a>>             *)
(*   <<"bin", o, a, b>> <<"neg", a>> <<"sum", a>>                          *)
(* Value evaluates a tree in an environment; it keeps, next to the value,  *)
(* a bound of what rounding in double precision may do to it.              *)
(***************************************************************************)
EXTENDS Units, Num, Integers, Sequences, TLC

Functions == {"sin", "cos", "tan", "sqrt", "dawsn", "ln", "log", "heaviside"}
Constants == {"1j", "pi", "eps_0", "hbar", "h", "c"}

(* ------------------------------ grammar ------------------------------ *)
Fail == [ok |-> FALSE, t |-> <<"num", "0">>, i |-> 0]
Done(t, i) == [ok |-> TRUE, t |-> t, i |-> i]
At(s, i, o) == i <= Len(s) /\ s[i][1] = "op" /\ s[i][2] = o
AnyOf(s, i, os) == i <= Len(s) /\ s[i][1] = "op" /\ s[i][2] \in os
RECURSIVE PExpr(_, _, _), PTerm(_, _, _), PFactor(_, _, _), PAtom(_, _, _), MoreExpr(_, _, _), MoreTerm(_, _, _)
(* expression: terms joined by + and -, from the left; rep: inside a sum *)
PExpr(s, i, rep) == LET a == PTerm(s, i, rep) IN IF a.ok THEN MoreExpr(s, a, rep) ELSE Fail
MoreExpr(s, a, rep) ==
  IF ~AnyOf(s, a.i, {"+", "-"}) THEN a
  ELSE LET b == PTerm(s, a.i + 1, rep) IN
       IF b.ok THEN MoreExpr(s, Done(<<"bin", s[a.i][2], a.t, b.t>>, b.i), rep) ELSE Fail
PTerm(s, i, rep) == LET a == PFactor(s, i, rep) IN IF a.ok THEN MoreTerm(s, a, rep) ELSE Fail
MoreTerm(s, a, rep) ==
  IF ~AnyOf(s, a.i, {"*", "/"}) THEN a
  ELSE LET b == PFactor(s, a.i + 1, rep) IN
       IF b.ok THEN MoreTerm(s, Done(<<"bin", s[a.i][2], a.t, b.t>>, b.i), rep) ELSE Fail
(* a sign binds weaker than a power, the exponent may carry one *)
PFactor(s, i, rep) ==
  IF AnyOf(s, i, {"+", "-"})
  THEN LET a == PFactor(s, i + 1, rep) IN
       IF ~a.ok THEN Fail ELSE IF s[i][2] = "+" THEN a ELSE Done(<<"neg", a.t>>, a.i)
  ELSE LET a == PAtom(s, i, rep) IN
       IF ~a.ok \/ ~At(s, a.i, "**") THEN a
       ELSE LET b == PFactor(s, a.i + 1, rep) IN IF b.ok THEN Done(<<"bin", "**", a.t, b.t>>, b.i) ELSE Fail
PAtom(s, i, rep) ==
  IF i > Len(s) THEN Fail
  ELSE CASE s[i][1] \in {"num", "name", "const"} -> Done(s[i], i + 1)
    [] s[i][1] = "fun" ->
         IF ~At(s, i + 1, "(") THEN Fail
         ELSE LET a == PExpr(s, i + 2, rep) IN IF a.ok /\ At(s, a.i, ")") THEN Done(<<"fun", s[i][2], a.t>>, a.i + 1) ELSE Fail
    [] s[i][1] = "sum" ->
         IF rep THEN Done(<<"name", "sum">>, i + 1)        \* no keyword inside of a sum
         ELSE IF ~At(s, i + 1, "[") THEN Fail
         ELSE LET a == PExpr(s, i + 2, TRUE) IN IF a.ok /\ At(s, a.i, "]") THEN Done(<<"sum", a.t>>, a.i + 1) ELSE Fail
    [] s[i][1] = "op" /\ s[i][2] = "(" ->
         LET a == PExpr(s, i + 1, rep) IN IF a.ok /\ At(s, a.i, ")") THEN Done(a.t, a.i + 1) ELSE Fail
    [] OTHER -> Fail
Parse(s) == LET a == PExpr(s, 1, FALSE) IN IF a.ok /\ a.i = Len(s) + 1 THEN a ELSE Fail
WellFormed(s) == Parse(s).ok

(* --------------------- writing a tree as a formula --------------------- *)
Op(o) == <<"op", o>>
Level(t) == CASE t[1] = "bin" /\ t[2] \in {"+", "-"} -> 1
              [] t[1] = "bin" /\ t[2] \in {"*", "/"} -> 2
              [] t[1] = "neg" -> 3
              [] t[1] = "bin" -> 4
              [] OTHER -> 5
RECURSIVE Write(_), Within(_, _)
Within(t, lev) == IF Level(t) < lev THEN <<Op("(")>> \o Write(t) \o <<Op(")")>> ELSE Write(t)
Write(t) ==
  CASE t[1] = "bin" /\ t[2] \in {"+", "-"} -> Within(t[3], 1) \o <<Op(t[2])>> \o Within(t[4], 2)
    [] t[1] = "bin" /\ t[2] \in {"*", "/"} -> Within(t[3], 2) \o <<Op(t[2])>> \o Within(t[4], 3)
    [] t[1] = "bin" -> Within(t[3], 5) \o <<Op("**")>> \o Within(t[4], 3)
    [] t[1] = "neg" -> <<Op("-")>> \o Within(t[2], 3)
    [] t[1] = "fun" -> <<<<"fun", t[2]>>, Op("(")>> \o Write(t[3]) \o <<Op(")")>>
    [] t[1] = "sum" -> <<<<"sum", "sum">>, Op("[")>> \o Write(t[2]) \o <<Op("]")>>
    [] OTHER -> <<t>>

(* ------------------------------ names ------------------------------ *)
RECURSIVE Names(_, _)
(* names outside ("out") or inside ("in") of sums *)
Names(t, where) ==
  CASE t[1] = "name" -> IF where = "out" THEN {t[2]} ELSE {}
    [] t[1] = "bin" -> Names(t[3], where) \cup Names(t[4], where)
    [] t[1] = "neg" -> Names(t[2], where)
    [] t[1] = "fun" -> Names(t[3], where)
    [] t[1] = "sum" -> IF where = "in" THEN Names(t[2], "out") ELSE {}
    [] OTHER -> {}
(* env: [axis |-> name, x |-> number, single |-> name -> number, rep |-> sequence of (name -> number)], repnames the repeated names *)
Resolved(t, axis, singles, reps) == Names(t, "out") \subseteq ({axis} \cup singles) /\ Names(t, "in") \subseteq ({axis} \cup singles \cup reps)

(* ------------------------------ values ------------------------------ *)
(* [v |-> value, e |-> rounding, z |-> may lie on a branch cut]; v = nan: undefined (or not judged) *)
U == N("1e-15")
Undef == [v |-> N("nan"), e |-> N(0), z |-> FALSE]
Cl(v, e, z) ==
  IF ~IsNum(v) \/ ~IsNum(e) THEN Undef
  ELSE LET a == NAbs(v) IN
       IF NLt("1e250", a) \/ (NLt(a, "1e-250") /\ ~NEq(a, 0)) THEN Undef
       ELSE [v |-> Approx(v), e |-> Approx(e (+) (U (.) a)), z |-> z]
Ok(a) == IsNum(a.v)
Away(a) == NLt(a.e (.) 10000, NAbs(a.v))                     \* away from zero
NearInt(b) == IsReal(b.v) /\ NEq(b.v, NFloor(b.v)) /\ NLeq(NAbs(b.v), 20)
(* off the cut of the logarithm, or real (one-sided) *)
OffCut(a) == Away(a) /\ (NLt(0, Re(a.v)) \/ NLt("1e-6" (.) NAbs(a.v), NAbs(Im(a.v))))
LnOf(a) == NLn(a.v)
ConstValue(c) == CASE c = "1j" -> I1 [] c = "pi" -> NPi [] c = "eps_0" -> N("8.8541878188e-12")
  [] c = "hbar" -> N("6.62607015e-34") (/) (2 (.) NPi) [] c = "h" -> N("6.62607015e-34") [] c = "c" -> N("299792458")
ConstErr(c) == IF c = "eps_0" THEN N("1e-20") ELSE N(0)      \* tabulated: editions of CODATA differ in the last digits
AddV(a, b, s) == Cl(IF s = "+" THEN a.v (+) b.v ELSE a.v (-) b.v, a.e (+) b.e, a.z \/ b.z)
MulV(a, b) == Cl(a.v (.) b.v, ((NAbs(a.v) (.) b.e) (+) (NAbs(b.v) (.) a.e)) (+) (a.e (.) b.e), a.z \/ b.z)
DivV(a, b) == IF ~Away(b) THEN Undef ELSE LET q == a.v (/) b.v IN Cl(q, (a.e (+) (NAbs(q) (.) b.e)) (/) NAbs(b.v), a.z \/ b.z)
PowV(a, b) ==
  IF NearInt(b) THEN
       LET k == NToInt(b.v) IN
       IF k = 0 THEN (IF Away(a) THEN Cl(N(1), N(0), a.z) ELSE Undef)
       ELSE IF ~Away(a) THEN (IF k > 0 /\ NEq(a.v, 0) THEN Cl(N(0), a.e, a.z) ELSE Undef)
       ELSE LET x == NLn(NAbs(a.v)) (.) k IN
            IF NLt(500, NAbs(x)) THEN Undef
            ELSE LET q == NPow(a.v, k) IN Cl(q, NAbs(q) (.) (((NAbs(k) (.) a.e) (/) NAbs(a.v)) (+) (NAbs(LnOf(a)) (.) (b.e (+) (IF a.z THEN U (.) 4 ELSE N(0))))), a.z)
  ELSE IF ~OffCut(a) THEN Undef
  ELSE LET x == b.v (.) LnOf(a) IN
       IF NLt(500, NAbs(x)) THEN Undef
       ELSE LET q == NExp(x) IN Cl(q, NAbs(q) (.) (((NAbs(b.v) (.) a.e) (/) NAbs(a.v)) (+) ((NAbs(LnOf(a)) (.) b.e) (+) (U (.) NAbs(x)))), a.z \/ b.z)
Trig(f, a) ==
  IF NLt(50, NAbs(a.v)) /\ ~IsReal(a.v) THEN Undef
  ELSE IF NLt("1e6", NAbs(a.v)) THEN Undef
  ELSE LET s == NSin(a.v) c == NCos(a.v) g == (NAbs(s) (+) NAbs(c)) (+) a.e IN
       IF f = "sin" THEN Cl(s, a.e (.) g, a.z)
       ELSE IF f = "cos" THEN Cl(c, a.e (.) g, a.z)
       ELSE IF NLeq(NAbs(c), "1e-4") THEN Undef ELSE LET t == s (/) c IN Cl(t, (a.e (.) (N(1) (+) Sq(NAbs(t)))) (.) 2, a.z)
FunV(f, a) ==
  CASE f \in {"sin", "cos", "tan"} -> Trig(f, a)
    [] f = "sqrt" ->
         IF ~a.z /\ IsReal(a.v) THEN
              IF NEq(a.v, 0) /\ NLeq(a.e, 0) THEN Cl(N(0), N(0), FALSE)
              ELSE IF ~Away(a) THEN Undef ELSE LET r == NSqrt(a.v) IN Cl(r, a.e (/) NAbs(r), NLt(a.v, 0))
         ELSE IF ~OffCut(a) THEN Undef ELSE LET r == NSqrt(a.v) IN Cl(r, a.e (/) NAbs(r), TRUE)
    [] f \in {"ln", "log"} ->
         IF ~OffCut(a) THEN Undef
         ELSE LET r == LnOf(a) e == (a.e (/) NAbs(a.v)) (+) U IN
              IF f = "ln" THEN Cl(r, e, a.z) ELSE Cl(r (/) NLn(10), e, a.z)
    [] f = "dawsn" -> IF a.z \/ ~IsReal(a.v) \/ NLt(200, NAbs(a.v)) THEN Undef ELSE Cl(NDawson(a.v), (a.e (.) 2) (+) (U (.) 10), FALSE)
    [] f = "heaviside" -> IF a.z \/ ~IsReal(a.v) \/ ~Away(a) THEN Undef ELSE Cl(IF NLt(0, a.v) THEN N(1) ELSE N(0), N(0), FALSE)
RECURSIVE Value(_, _, _), SumV(_, _, _)
(* j: 0 outside of sums, else the number of the repeated set *)
Value(t, env, j) ==
  CASE t[1] = "num" -> Cl(N(t[2]), N(0), FALSE)
    [] t[1] = "const" -> Cl(ConstValue(t[2]), ConstErr(t[2]), t[2] = "1j")
    [] t[1] = "name" ->
         IF t[2] = env.axis THEN Cl(env.x, U (.) NAbs(env.x), FALSE)
         ELSE IF t[2] \in DOMAIN env.single THEN Cl(N(env.single[t[2]]), N(0), FALSE)
         ELSE Cl(N(env.rep[j][t[2]]), N(0), FALSE)
    [] t[1] = "neg" -> LET a == Value(t[2], env, j) IN IF Ok(a) THEN Cl(NNeg(a.v), a.e, a.z) ELSE Undef
    [] t[1] = "fun" -> LET a == Value(t[3], env, j) IN IF Ok(a) THEN FunV(t[2], a) ELSE Undef
    [] t[1] = "sum" -> SumV(t[2], env, Len(env.rep))
    [] t[1] = "bin" ->
         LET a == Value(t[3], env, j) b == Value(t[4], env, j) IN
         IF ~Ok(a) \/ ~Ok(b) THEN Undef
         ELSE CASE t[2] \in {"+", "-"} -> AddV(a, b, t[2]) [] t[2] = "*" -> MulV(a, b) [] t[2] = "/" -> DivV(a, b) [] t[2] = "**" -> PowV(a, b)
SumV(t, env, j) == IF j = 0 THEN Cl(N(0), N(0), FALSE)
  ELSE LET a == Value(t, env, j) b == SumV(t, env, j - 1) IN IF Ok(a) /\ Ok(b) THEN AddV(a, b, "+") ELSE Undef
=============================================================================
