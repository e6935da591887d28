------------------------------ MODULE MC_Files ------------------------------
(* A measurement is written line by line (recs: what was measured), then read. *)
EXTENDS Files, Integers, Sequences, TLC, Json
CONSTANTS MaxLines, MaxHead, Xs, Aois, Units_, Fmts
VARIABLES fmt, unit, lines, recs, done
vars == <<fmt, unit, lines, recs, done>>
Init == fmt = "" /\ unit = "" /\ lines = <<>> /\ recs = <<>> /\ done = FALSE
Data == {"rec", "other", "grid", "mm"}
HasData == \E i \in 1..Len(lines) : lines[i][1] \in Data
Declared == \E i \in 1..Len(lines) : lines[i][1] = "unit"
Gridded == \E i \in 1..Len(lines) : lines[i][1] = "angles"
Choose(f) == fmt = "" /\ fmt' = f /\ UNCHANGED <<unit, lines, recs, done>>
Text == fmt # "" /\ ~HasData /\ ~Declared /\ ~Gridded /\ fmt \notin {"spectraray", "mmatrix"} /\ Len(lines) < MaxHead /\ lines' = Append(lines, <<"text">>) /\ UNCHANGED <<fmt, unit, recs, done>>
Declare(u) == fmt \in Woollam /\ ~Declared /\ lines' = Append(lines, <<"unit", u>>) /\ unit' = u /\ UNCHANGED <<fmt, recs, done>>
Trig == fmt = "wvase" /\ ~Declared /\ ~HasData /\ lines' = Append(lines, <<"trig">>) /\ UNCHANGED <<fmt, unit, recs, done>>
GridOf(as) == fmt = "spectraray" /\ ~Gridded /\ lines' = Append(lines, <<"angles", as>>) /\ UNCHANGED <<fmt, unit, recs, done>>
(* psi and delta of the n-th line: all different, delta over several turns *)
Psi(n) == (7 * n) % 90
Del(n) == ((101 * n) % 700) - 300
NoTrig == \A i \in 1..Len(lines) : lines[i][1] # "trig"
Rec(x, a) == fmt \in {"wvase", "cease", "accurion"} /\ (fmt \in Woollam => Declared /\ NoTrig) /\
  LET n == Len(lines) IN
  /\ lines' = Append(lines, <<"rec", x, a, Psi(n), Del(n)>>)
  /\ recs' = Append(recs, [aoi |-> a, x |-> x, psi |-> Psi(n), delta |-> Del(n)])
  /\ UNCHANGED <<fmt, unit, done>>
(* quantities besides follow the first record *)
Other == fmt \in Woollam /\ recs # <<>> /\ lines' = Append(lines, <<"other">>) /\ UNCHANGED <<fmt, unit, recs, done>>
Grid(x) == fmt = "spectraray" /\ Gridded /\
  LET n == Len(lines)  as == lines[1][2] IN
  /\ lines' = Append(lines, <<"grid", x, [i \in 1..Len(as) |-> <<Psi(n + 13 * i), Del(n + 13 * i)>>]>>)
  /\ recs' = recs \o [i \in 1..Len(as) |-> [aoi |-> as[i], x |-> x, psi |-> Psi(n + 13 * i), delta |-> Del(n + 13 * i)]]
  /\ UNCHANGED <<fmt, unit, done>>
Mm(x) == fmt = "mmatrix" /\ lines' = Append(lines, <<"mm", x, [i \in 1..16 |-> Len(lines) * 16 + i]>>) /\ recs' = Append(recs, [aoi |-> 0, x |-> x, psi |-> 0, delta |-> 0]) /\ UNCHANGED <<fmt, unit, done>>
Finish == fmt # "" /\ done' = TRUE /\ UNCHANGED <<fmt, unit, lines, recs>>
Grids == {<<a>> : a \in Aois} \cup ({<<a, b>> : a \in Aois, b \in Aois} \ {<<a, a>> : a \in Aois})
Next == ~done /\
  \/ \E f \in Fmts : Choose(f)
  \/ Len(lines) < MaxLines /\ (Text \/ Trig \/ Other \/ (\E u \in Units_ : Declare(u)) \/ (\E g \in Grids : GridOf(g))
                               \/ (\E x \in Xs : Grid(x) \/ Mm(x) \/ \E a \in Aois : Rec(x, a)))
  \/ Finish
Spec == Init /\ [][Next]_vars

R == Read(fmt, lines)
(* what was measured is read, once each, in order *)
Complete == fmt # "" => Len(R.rows) = Len(recs)
Faithful == fmt # "" /\ fmt # "mmatrix" => \A i \in 1..Len(recs) :
  LET r == R.rows[i] IN
  /\ NEq(r.aoi, recs[i].aoi) /\ NEq(r.psi, recs[i].psi)
  /\ Close(IF fmt \in Woollam /\ IsUnit(unit) THEN FromNm(unit, r.wl) ELSE r.wl, recs[i].x, 0, "1e-12")
  /\ Close(r.wl, IF fmt \in Woollam /\ IsUnit(unit) THEN ToNm(unit, recs[i].x) ELSE N(recs[i].x), 0, "1e-12")
Angles == fmt # "" /\ fmt # "mmatrix" => \A i \in 1..Len(recs) :
  LET r == R.rows[i] IN
  /\ SameAngle(r.delta, recs[i].delta, "1e-12")
  /\ IF fmt \in Wrapped THEN NLeq(-180, r.delta) /\ NLt(r.delta, 180) ELSE NEq(r.delta, recs[i].delta)
  /\ recs[i].psi # 90 => Close(Rho(r.psi, r.delta), Rho(recs[i].psi, recs[i].delta), "1e-12", "1e-12")
(* other quantities and headings make no difference *)
NotText(x) == x[1] \notin {"other", "text"}
Blind == fmt # "" => R.rows = Read(fmt, SelectSeq(lines, NotText)).rows
(* records may come in any order *)
Turned(s) == LET d == SelectSeq(s, LAMBDA x : x[1] \in {"rec", "grid", "mm"}) IN SelectSeq(s, LAMBDA x : x[1] \notin {"rec", "grid", "mm"}) \o [i \in 1..Len(d) |-> d[Len(d) + 1 - i]]
Range(s) == {s[i] : i \in 1..Len(s)}
Unordered == fmt # "" /\ ~R.bad => Range(Read(fmt, Turned(SelectSeq(lines, NotText))).rows) = Range(R.rows)
OnlyFiles == done => (Refused(fmt, R) <=> (fmt \in Woollam /\ recs = <<>>))
Emit == done => PrintT("@@BEH|" \o ToJson(<<[fmt |-> fmt, lines |-> lines]>>))

(* simulation *)
Pick(S) == {RandomElement(S)}
GenNext == ~done /\
  IF fmt = "" THEN \E f \in Pick(Fmts) : Choose(f)
  ELSE IF Len(lines) >= MaxLines THEN Finish
  ELSE \E k \in Pick(1..12) : \E x \in Pick(Xs) : \E a \in Pick(Aois) :
    IF fmt \in Woollam /\ ~Declared THEN
       IF k <= 5 \/ Len(lines) = MaxHead THEN \E u \in Pick(Units_) : Declare(u) ELSE IF k = 12 THEN Finish ELSE IF k = 11 /\ fmt = "wvase" THEN Trig ELSE Text
    ELSE IF fmt = "spectraray" /\ ~Gridded THEN \E g \in Pick(Grids \cup {<<1, 2, 3>>, <<3, 1, 2>>, <<2, 3, 1>>}) : GridOf(g)
    ELSE IF fmt = "accurion" /\ lines = <<>> THEN Text
    ELSE IF k = 12 /\ recs # <<>> THEN Finish
    ELSE IF fmt = "spectraray" THEN Grid(x)
    ELSE IF fmt = "mmatrix" THEN Mm(x)
    ELSE IF fmt \in Woollam /\ ~NoTrig THEN Finish
    ELSE IF k <= 2 /\ fmt \in Woollam /\ recs # <<>> THEN Other ELSE Rec(x, a)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
