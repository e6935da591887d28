------------------------------- MODULE Tr_Light -------------------------------
(***************************************************************************)
(* Recorded experiments against Light.                                     *)
(*  new|set  kind v err j s    the vector set, and what is stored          *)
(*  spoil    j s               the caller's array changed                  *)
(*  evaluate M rho             a result: ratio matrices and rho            *)
(*  reread   r rho             rho of the r-th result again                *)
(***************************************************************************)
EXTENDS Light, TraceBase
VARIABLES light, past
vars == <<l, light, past>>
Init == l = 1 /\ light = Light("none", <<>>) /\ past = <<>>
Vector(e) == [i \in 1..Len(e) |-> N(e[i])]
Obs == [j |-> Vector(Ev.j), s |-> Vector(Ev.s)]
Stored(want) ==
  IF Len(Ev.j) # 2 \/ Len(Ev.s) # 4 THEN Chk("shape", FALSE, ToString(Ev.j) \o ToString(Ev.s))
  ELSE LET p == Point(want.s) IN
  /\ Chk("jones", SamePoint(Point(StokesOf(Obs.j)), p, "1e-10"), "Jones " \o Show(Obs.j[1]) \o ", " \o Show(Obs.j[2]) \o " for Stokes direction " \o Show(p[1]) \o ", " \o Show(p[2]) \o ", " \o Show(p[3]))
  /\ Chk("stokes", \A i \in 1..4 : Close(Obs.s[i], want.s[i], "1e-12" (.) NAbs(want.s[1]), 0),
         "stored " \o Show(Obs.s[1]) \o ", " \o Show(Obs.s[2]) \o ", " \o Show(Obs.s[3]) \o ", " \o Show(Obs.s[4]))
SetEv ==
  /\ Is("new") \/ Is("set")
  /\ light' = Force(Light(Ev.kind, Vector(Ev.v)))
  /\ past' = IF Ev.ev = "new" THEN <<>> ELSE past
  /\ Chk("raises", Ev.err = "", Ev.err)
  /\ IF Ev.err = "" THEN Stored(light') ELSE TRUE
SpoilEv == Is("spoil") /\ UNCHANGED <<light, past>> /\ Stored(light)
ChkRho(clause, lt, M, rho) == \A k \in 1..Len(M) : LET m == [i \in 1..2 |-> [j \in 1..2 |-> N(M[k][i][j])]] IN
  Sound(m, lt.j) => ChkNum(clause, rho[k], RhoFor(m, lt.j), "1e-8", "1e-8")
EvalEv == Is("evaluate") /\ UNCHANGED light /\ past' = Append(past, [lt |-> light, M |-> Ev.M]) /\ ChkRho("rho", light, Ev.M, Ev.rho)
RereadEv == Is("reread") /\ UNCHANGED <<light, past>> /\ ChkRho("rho-later", past[Ev.r].lt, past[Ev.r].M, Ev.rho)
Next == SetEv \/ SpoilEv \/ EvalEv \/ RereadEv
Spec == Init /\ [][Next]_vars
=============================================================================
