-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* The numbers the specifications compute with.                            *)
(*                                                                         *)
(* A number is a complex number whose two components are exact rationals,  *)
(* or - once a function with irrational values was applied - decimals of   *)
(* 64 significant digits.  A number may be written in a specification as   *)
(* a TLC integer or as a string: "3/4", "-0.125", "1e-9", and "re|im" for  *)
(* a complex number.  "nan" and the infinities are numbers that are not    *)
(* IsNum; every operator passes them on, every comparison with them is     *)
(* FALSE, so a verdict about them is total.                                *)
(*                                                                         *)
(* The operators below are given to TLC by the module override Num.class   *)
(* (java/Num.java), exactly as Integers or Reals are.                      *)
(***************************************************************************)
LOCAL Undefined == CHOOSE x : FALSE

N(x)        == Undefined   \* the number denoted by a string, an integer or a number
IsNum(x)    == Undefined   \* finite
IsReal(x)   == Undefined   \* finite and without imaginary part
IsExact(x)  == Undefined   \* no approximation has entered the computation of x
Approx(x)   == Undefined   \* x rounded to 64 digits (an exact zero stays exact)
Str(x)      == Undefined   \* canonical string: equal for equal exact numbers
Show(x)     == Undefined   \* ten digits, for messages
Cx(x, y)    == Undefined   \* x + i y
Re(x)       == Undefined
Im(x)       == Undefined
Conj(x)     == Undefined
NNeg(x)     == Undefined
NAdd(x, y)  == Undefined
NSub(x, y)  == Undefined
NMul(x, y)  == Undefined
NDiv(x, y)  == Undefined   \* nan when y = 0
NPow(x, k)  == Undefined   \* k a TLC integer
NSqrt(x)    == Undefined   \* principal; exact for squares of rationals
NExp(x)     == Undefined
NLn(x)      == Undefined
NSin(x)     == Undefined
NCos(x)     == Undefined
NAtan(x)    == Undefined   \* real argument
NAtan2(y, x) == Undefined
Arg(x)      == Undefined
NPi         == Undefined
NAbs(x)     == Undefined
Abs2(x)     == Undefined
NLeq(x, y)  == Undefined   \* comparisons of the real parts
NLt(x, y)   == Undefined
NEq(x, y)   == Undefined
NFloor(x)   == Undefined
NToInt(x)   == Undefined   \* floor as a TLC integer
NMod(x, y)  == Undefined   \* x - y * floor(x / y)
Close(x, y, atol, rtol) == Undefined   \* |x - y| <= atol + rtol |y|
NSumSeq(s)  == Undefined   \* sum of a sequence of numbers
NDot(s, t)  == Undefined   \* sum of s[i] * t[i]
NDigamma(x) == Undefined   \* special functions: digamma and gamma (complex), Dawson's integral (real)
NGamma(x)   == Undefined
NDawson(x)  == Undefined
Force(v)    == Undefined   \* v; evaluated completely

a (+) b == NAdd(a, b)
a (-) b == NSub(a, b)
a (.) b == NMul(a, b)
a (/) b == NDiv(a, b)

I1 == Cx(0, 1)
Sq(x) == NMul(x, x)
NMax(a, b) == IF NLeq(a, b) THEN b ELSE a
NMin(a, b) == IF NLeq(a, b) THEN a ELSE b
Tan(x) == NSin(x) (/) NCos(x)
Deg(x) == NMul(x, NPi (/) 180)          \* degrees to radians
ToDeg(x) == NMul(x, 180 (/) NPi)
=============================================================================
