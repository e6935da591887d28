-------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* What drawings show.                                                     *)
(* A profile is a sequence of slices [d, eps]; the first and the last are  *)
(* the half-spaces (d = "inf").  Drawn is, against the depth z below the   *)
(* first interface, the index of the slice at z.                           *)
(* Mueller matrices: a curve for each element and table, in the panel of   *)
(* the element, in the colour of the element and the style of the table.   *)
(***************************************************************************)
EXTENDS Tensor

Quad(eps, v) == NSumSeq([i \in 1..3 |-> NSumSeq([j \in 1..3 |-> (v[i] (.) eps[i][j]) (.) v[j]])])
IndexAlong(eps, v) == NSqrt(Quad(eps, v))
EX == <<N(1), N(0), N(0)>>

(* depth of the upper face of slice i (2 is the first slice) *)
RECURSIVE Top(_, _)
Top(p, i) == IF i <= 2 THEN N(0) ELSE Top(p, i - 1) (+) p[i - 1].d
Inner(p) == 2..(Len(p) - 1)
(* the slice at depth z; a face belongs to the slice below it *)
SliceAt(p, z) ==
  IF NLt(z, 0) THEN 1
  ELSE IF \E i \in Inner(p) : NLt(z, Top(p, i) (+) p[i].d)
       THEN CHOOSE i \in Inner(p) : NLt(z, Top(p, i) (+) p[i].d) /\ \A j \in Inner(p) : j < i => ~NLt(z, Top(p, j) (+) p[j].d)
       ELSE Len(p)
Shown(p, z) == IndexAlong(p[SliceAt(p, z)].eps, EX)

Panel(k) == <<((k - 1) \div 4) + 1, ((k - 1) % 4) + 1>>
Cycle(s, k) == s[((k - 1) % Len(s)) + 1]
=============================================================================
