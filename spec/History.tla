------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* A parameter set with history: the current parameters, in order, and a   *)
(* bounded sequence of snapshots of them.                                  *)
(* A parameter is [name, val, min, max, vary, of]; a parameter with        *)
(* of # "" is tied: its value is twice the value of the parameter named.   *)
(* Values are exact numbers; a bound is a number, "-inf" or "inf".         *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC

Names(P) == {P[i].name : i \in 1..Len(P)}
Pos(P, n) == CHOOSE i \in 1..Len(P) : P[i].name = n
Par(P, n) == P[Pos(P, n)]
Within(v, lo, hi) == (lo = "-inf" \/ NLeq(lo, v)) /\ (hi = "inf" \/ NLeq(v, hi))
Clip(v, lo, hi) == IF lo # "-inf" /\ NLt(v, lo) THEN N(lo) ELSE IF hi # "inf" /\ NLt(hi, v) THEN N(hi) ELSE N(v)
(* tied parameters follow the parameter they refer to *)
Settle(P) == [i \in 1..Len(P) |-> IF P[i].of = "" \/ P[i].of \notin Names(P) THEN P[i]
                                  ELSE [P[i] EXCEPT !.val = Clip(Par(P, P[i].of).val (.) 2, P[i].min, P[i].max)]]
Put(P, p) == IF p.name \in Names(P) THEN [P EXCEPT ![Pos(P, p.name)] = p] ELSE Append(P, p)
RECURSIVE PutAll(_, _)
PutAll(P, Q) == IF Q = <<>> THEN P ELSE PutAll(Put(P, Head(Q)), Tail(Q))

(* the operations, on a state [cur, hist, max] *)
New == [cur |-> <<>>, hist |-> <<>>, max |-> 50]
Commit(s) == [s EXCEPT !.hist = Append(IF Len(s.hist) >= s.max THEN Tail(s.hist) ELSE s.hist, s.cur)]
Add(s, p) == [s EXCEPT !.cur = Settle(Put(s.cur, [p EXCEPT !.val = Clip(p.val, p.min, p.max)]))]
TrackedAdd(s, p) == Add(Commit(s), p)
SetValue(s, n, v) == [s EXCEPT !.cur = Settle([s.cur EXCEPT ![Pos(s.cur, n)].val = Clip(v, Par(s.cur, n).min, Par(s.cur, n).max)])]
UpdateValue(s, n, v) == SetValue(Commit(s), n, v)
SetVary(s, n, b) == [s EXCEPT !.cur[Pos(s.cur, n)].vary = b]
SetBounds(s, n, lo, hi) == [s EXCEPT !.cur[Pos(s.cur, n)].min = lo, !.cur[Pos(s.cur, n)].max = hi]
UpdateParams(s, Q) == [Commit(s) EXCEPT !.cur = Settle(PutAll(s.cur, Q))]
(* position as in Python: 0 is the oldest, -1 the newest *)
InRange(s, k) == (k >= 0 /\ k < Len(s.hist)) \/ (k < 0 /\ -k <= Len(s.hist))
At(s, k) == s.hist[IF k >= 0 THEN k + 1 ELSE Len(s.hist) + k + 1]
Revert(s, k) == [s EXCEPT !.cur = At(s, k)]
Pop(s) == IF s.hist = <<>> THEN s ELSE [s EXCEPT !.cur = s.hist[Len(s.hist)], !.hist = SubSeq(s.hist, 1, Len(s.hist) - 1)]
Clear(s) == [s EXCEPT !.hist = <<>>]
SetMax(s, m) == [s EXCEPT !.max = m, !.hist = IF Len(s.hist) > m THEN SubSeq(s.hist, Len(s.hist) - m + 1, Len(s.hist)) ELSE s.hist]
=============================================================================
