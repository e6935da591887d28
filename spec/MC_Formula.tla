------------------------------- MODULE MC_Formula -------------------------------
(* Trees are grown on a stack; the one on top is written, read back, damaged.    *)
EXTENDS Formula, Json
CONSTANTS MaxSteps, Leaves, Funs, Bins, Damage
VARIABLES stack, steps, spoilt      \* spoilt: the tokens after damage (empty: none)
vars == <<stack, steps, spoilt>>
Leaf == "2" :> <<"num", "2">> @@ "1e-3" :> <<"num", "1e-3">> @@ "x" :> <<"name", "x">> @@ "a" :> <<"name", "a">> @@ "r" :> <<"name", "r">> @@ "s" :> <<"name", "s">>
     @@ "pi" :> <<"const", "pi">> @@ "1j" :> <<"const", "1j">> @@ "y" :> <<"name", "y">> @@ "0.75" :> <<"num", "0.75">> @@ "3" :> <<"num", "3">> @@ "b" :> <<"name", "b">>
     @@ "hbar" :> <<"const", "hbar">> @@ "h" :> <<"const", "h">> @@ "c" :> <<"const", "c">> @@ "eps_0" :> <<"const", "eps_0">> @@ "sumof" :> <<"name", "sumof">> @@ "12.5E1" :> <<"num", "12.5E1">>
Top == stack[Len(stack)]
RECURSIVE HasSum(_)
HasSum(t) == CASE t[1] = "sum" -> TRUE [] t[1] = "neg" -> HasSum(t[2]) [] t[1] = "fun" -> HasSum(t[3]) [] t[1] = "bin" -> HasSum(t[3]) \/ HasSum(t[4]) [] OTHER -> FALSE
Rest(n) == SubSeq(stack, 1, Len(stack) - n)
Init == stack = <<>> /\ steps = 0 /\ spoilt = <<>>
Push(x) == stack' = Append(stack, Leaf[x])
Neg == stack # <<>> /\ stack' = Append(Rest(1), <<"neg", Top>>)
Fun(f) == stack # <<>> /\ stack' = Append(Rest(1), <<"fun", f, Top>>)
Sum == stack # <<>> /\ ~HasSum(Top) /\ stack' = Append(Rest(1), <<"sum", Top>>)
Bin(o) == Len(stack) >= 2 /\ stack' = Append(Rest(2), <<"bin", o, stack[Len(stack) - 1], Top>>)
Junk == {<<"op", "+">>, <<"op", "*">>, <<"op", "(">>, <<"op", ")">>, <<"op", "]">>, <<"op", "**">>, <<"num", "2">>, <<"name", "x">>, <<"fun", "sin">>, <<"sum", "sum">>, <<"bad", "^">>, <<"op", "-">>}
Tokens == IF spoilt = <<>> THEN Write(Top) ELSE spoilt
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Put(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Spoil == stack # <<>> /\ spoilt = <<>> /\ stack' = stack /\ \E i \in 1..Len(Tokens) :
  \/ Len(Tokens) > 1 /\ spoilt' = Cut(Tokens, i)
  \/ \E x \in Junk : spoilt' = Put(Tokens, i, x)
  \/ \E x \in Junk : spoilt' = [Tokens EXCEPT ![i] = x]
Next == steps < MaxSteps /\ steps' = steps + 1 /\
  \/ spoilt = <<>> /\ UNCHANGED spoilt /\ ((\E x \in Leaves : Push(x)) \/ Neg \/ (\E f \in Funs : Fun(f)) \/ Sum \/ (\E o \in Bins : Bin(o)))
  \/ Damage /\ Spoil
Spec == Init /\ [][Next]_vars

Env == [axis |-> "x", x |-> N("3/2"), single |-> "a" :> "2" @@ "b" :> "-1/3", rep |-> << "r" :> "1/2" @@ "s" :> "4", "r" :> "3" @@ "s" :> "-2" >>]
Known(t) == Resolved(t, "x", {"a", "b"}, {"r", "s"})
Val(t) == Value(t, Env, 0)
Agree(a, b) == Close(a.v, b.v, (a.e (+) b.e) (.) 10, 0) \/ ~Ok(a) \/ ~Ok(b)
(* reading back what was written *)
RoundTrip == stack # <<>> /\ spoilt = <<>> => LET p == Parse(Write(Top)) IN p.ok /\ p.t = Top
(* what is accepted is written the same way again, up to parentheses and plus signs *)
Stable == spoilt # <<>> => LET p == Parse(spoilt) IN p.ok => Parse(Write(p.t)).t = p.t
(* parentheses are balanced, and operands and operators alternate *)
Count(s, o) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + (IF s[i] = <<"op", o>> THEN 1 ELSE 0) IN f[Len(s)]
Operand(x) == x[1] \in {"num", "name", "const"}
Shape == stack # <<>> => LET s == Tokens IN WellFormed(s) =>
  /\ Count(s, "(") = Count(s, ")") /\ Count(s, "[") = Count(s, "]")
  /\ \A i \in 1..Len(s) - 1 : Operand(s[i]) => (s[i + 1][1] = "op" /\ s[i + 1][2] \notin {"(", "["})
  /\ Operand(s[Len(s)]) \/ s[Len(s)][2] \in {")", "]"}
(* the value respects the laws of arithmetic *)
Laws == stack # <<>> /\ spoilt = <<>> /\ Known(Top) => LET t == Top v == Val(t) IN Ok(v) =>
  /\ Agree(Val(<<"neg", <<"neg", t>>>>), v)
  /\ Agree(Val(<<"bin", "-", t, t>>), Val(<<"num", "0">>))
  /\ Agree(Val(<<"bin", "**", t, <<"num", "2">>>>), Val(<<"bin", "*", t, t>>))
  /\ Agree(Val(<<"bin", "/", t, t>>), Val(<<"num", "1">>))
  /\ Agree(Val(<<"bin", "+", <<"bin", "**", <<"fun", "sin", t>>, <<"num", "2">>>>, <<"bin", "**", <<"fun", "cos", t>>, <<"num", "2">>>>>>), Val(<<"num", "1">>))
  /\ Agree(Val(<<"bin", "**", <<"fun", "sqrt", t>>, <<"num", "2">>>>), v)
  /\ ~HasSum(t) => Agree(Val(<<"sum", t>>), Val(<<"bin", "*", <<"num", "2">>, t>>))
Sums == Len(stack) >= 2 /\ spoilt = <<>> /\ ~HasSum(Top) /\ ~HasSum(stack[Len(stack) - 1]) =>
  LET a == stack[Len(stack) - 1] b == Top IN
  (Names(a, "out") \cup Names(b, "out")) \subseteq {"x", "a", "b", "r", "s"} =>
  /\ Agree(Val(<<"sum", <<"bin", "+", a, b>>>>), Val(<<"bin", "+", <<"sum", a>>, <<"sum", b>>>>))
  /\ Agree(Val(<<"sum", <<"neg", a>>>>), Val(<<"neg", <<"sum", a>>>>))
Emit == steps = MaxSteps => PrintT("@@BEH|" \o ToJson(<<[tokens |-> Tokens, spoilt |-> spoilt # <<>>]>>))

(* simulation: grow one tree *)
Pick(S) == {RandomElement(S)}
GenSpoil == stack' = stack /\ \E i \in Pick(1..Len(Tokens)) : \E x \in Pick(Junk) : \E k \in Pick(1..3) :
  spoilt' = IF k = 1 /\ Len(Tokens) > 1 THEN Cut(Tokens, i) ELSE IF k = 2 THEN Put(Tokens, i, x) ELSE [Tokens EXCEPT ![i] = x]
Open(t) == Names(t, "out") \cap {"r", "s"} # {}          \* repeated names still to be summed over
LeafPool == IF RandomElement(1..12) = 1 THEN Leaves ELSE Leaves \ {"y"}
GenGrow == \E k \in Pick(1..12) :
  LET two == Len(stack) >= 2  open == stack # <<>> /\ Open(Top) IN
  IF stack = <<>> THEN \E x \in Pick(LeafPool) : Push(x)
  ELSE IF open /\ ~HasSum(Top) /\ (k <= 4 \/ steps >= MaxSteps - 3) THEN Sum
  ELSE IF two /\ (k <= 7 \/ steps >= MaxSteps - 6) THEN \E o \in Pick(Bins) : Bin(o)
  ELSE IF k = 8 THEN Neg
  ELSE IF k = 9 \/ (k = 10 /\ steps > 4) THEN \E f \in Pick(Funs) : Fun(f)
  ELSE \E x \in Pick(LeafPool) : Push(x)
GenNext == steps < MaxSteps /\ steps' = steps + 1 /\
  \E c \in Pick(1..6) : IF steps = MaxSteps - 1 /\ stack # <<>> /\ c = 1 THEN GenSpoil ELSE UNCHANGED spoilt /\ GenGrow
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
