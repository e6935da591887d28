------------------------------- MODULE MC_Plots -------------------------------
(* Structures are put together slice by slice; their drawing follows.          *)
EXTENDS Plots, Integers, FiniteSets, TLC
CONSTANTS MaxSlices
VARIABLES p, before
vars == <<p, before>>
(* n_x 2 or 3 seen along x; turned by 90 degrees about z the other one is seen *)
Eps(k) == CASE k = "a" -> Diag(<<4, 9, 1>>) [] k = "b" -> Diag(<<9, 4, 1>>)
            [] k = "t" -> << <<N("13/2"), N("5/2"), N(0)>>, <<N("5/2"), N("13/2"), N(0)>>, <<N(0), N(0), N(1)>> >>
            [] k = "m" -> Diag(<<"-4", 1, 1>>)
Kinds == {"a", "b", "t", "m"}
Ds == {"0", "5", "12"}
Half(k) == [d |-> "inf", eps |-> Eps(k)]
Init == p = <<Half("a"), Half("b")>> /\ before = <<>>
Put(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
(* a slice is put in below the i-th *)
Insert(i, d, k) == Len(p) - 2 < MaxSlices /\ before' = <<p, i, d>> /\ p' = Put(p, i, [d |-> d, eps |-> Eps(k)])
Next == \E d \in Ds : \E k \in Kinds : \E i \in 1..(Len(p) - 1) : Insert(i, d, k)
Spec == Init /\ [][Next]_vars

Total == NSumSeq([i \in 1..(Len(p) - 2) |-> N(p[i + 1].d)])
Zs == {"-3", "0", "5/2", "5", "6", "10", "13", "17", "25", "99"}
(* above and below are the half-spaces *)
Outside == \A z \in Zs : (NLt(z, 0) => SliceAt(p, z) = 1) /\ (NLeq(Total, z) => SliceAt(p, z) = Len(p))
Inside == \A z \in Zs : LET i == SliceAt(p, z) IN i \in Inner(p) => NLeq(Top(p, i), z) /\ NLt(z, Top(p, i) (+) p[i].d)
(* slices without thickness are not seen *)
Thin == \A z \in Zs : LET i == SliceAt(p, z) IN i \in Inner(p) => ~NEq(p[i].d, 0)
(* putting a slice in moves what is below it down, and nothing else *)
Moves == before # <<>> => LET o == before[1] i == before[2] d == before[3] f == Top(o, i + 1) IN
  \A z \in Zs : IF NLt(z, f) THEN SliceAt(p, z) = SliceAt(o, z)
                ELSE NEq(Shown(p, N(z) (+) d), Shown(o, z))
(* the three directions together see the trace *)
Trace_ == \A k \in Kinds : LET e == Eps(k) b == << <<N("3/5"), N("4/5"), N(0)>>, <<N("-4/5"), N("3/5"), N(0)>>, <<N(0), N(0), N(1)>> >> IN
  NEq(NSumSeq([i \in 1..3 |-> Quad(e, b[i])]), NSumSeq([i \in 1..3 |-> e[i][i]]))
Panels == Cardinality({Panel(k) : k \in 1..16}) = 16 /\ \A k \in 1..16 : Panel(k)[1] \in 1..4 /\ Panel(k)[2] \in 1..4
=============================================================================
