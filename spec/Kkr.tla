--------------------------------- MODULE Kkr ---------------------------------
(***************************************************************************)
(* Kramers-Kronig transforms by Maclaurin's formula on a uniform grid:     *)
(* at a point, the sum over the points of the opposite parity, with        *)
(* twice the grid's step.                                                  *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

Kernel(kind, x, xi) ==
  CASE kind = "im2re" -> N(x) (/) (Sq(x) (-) Sq(xi))
    [] kind = "re2im" -> N(xi) (/) (Sq(x) (-) Sq(xi))
    [] kind = "im2re_reciprocal" -> N(1) (/) (N(x) (.) (N(1) (-) (Sq(x) (/) Sq(xi))))
    [] kind = "re2im_reciprocal" -> N(1) (/) (N(xi) (-) (Sq(x) (/) xi))
Kinds == {"im2re", "re2im", "im2re_reciprocal", "re2im_reciprocal"}

Step(x) == NAbs((N(x[Len(x)]) (-) x[1]) (/) (Len(x) - 1))
\* the indices of the opposite parity
Others(n, i) == [m \in 1..(IF i % 2 = 1 THEN n \div 2 ELSE (n + 1) \div 2) |-> 2 * m - (IF i % 2 = 1 THEN 0 ELSE 1)]
Transform(kind, t, x, i) ==
  LET o == Others(Len(x), i)
  IN ((N(4) (.) Step(x)) (/) NPi) (.) NSumSeq([m \in 1..Len(o) |-> Approx(N(t[o[m]]) (.) Kernel(kind, x[o[m]], x[i]))])
\* the magnitude of its terms, the scale of its rounding
Scale(kind, t, x, i) ==
  LET o == Others(Len(x), i)
  IN ((N(4) (.) Step(x)) (/) NPi) (.) NSumSeq([m \in 1..Len(o) |-> NAbs(Approx(N(t[o[m]]) (.) Kernel(kind, x[o[m]], x[i])))])
=============================================================================
