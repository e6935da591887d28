------------------------------- MODULE Tr_World -------------------------------
(***************************************************************************)
(* Recorded histories of objects against World.                            *)
(*  world w                 the objects built                              *)
(*  set op err tree         a setter; the tree is read back from the       *)
(*  spoil tree              experiment's objects                           *)
(*  part what i obs again fresh tree errs   a dispersion, material, layer  *)
(*                          or structure evaluated twice; fresh: newly     *)
(*                          built from the tree that was read back         *)
(*  evaluate obs again fresh tree errs about                               *)
(*  reread r obs about      an earlier result                              *)
(*  fork n same, evalfork n obs fresh tree                                 *)
(***************************************************************************)
EXTENDS World, TraceBase
VARIABLES w, results, forks
vars == <<l, w, results, forks>>
Init == l = 1 /\ w = <<>> /\ results = <<>> /\ forks = <<>>
Agree(clause, got, want) ==
  IF Len(got) # Len(want) THEN Chk(clause, FALSE, ToString(Len(got)) \o " numbers, specified " \o ToString(Len(want)))
  ELSE LET bad == {i \in 1..Len(got) : IF got[i] = want[i] THEN FALSE ELSE ~Close(got[i], want[i], "1e-7", "1e-7")} IN
       Chk(clause, bad = {}, IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN "at " \o ToString(i) \o ": " \o Show(got[i]) \o ", specified " \o Show(want[i]))
Same(clause, got, want) == Chk(clause, got = want, "at " \o ToString({i \in 1..Len(got) : IF i > Len(want) THEN TRUE ELSE got[i] # want[i]}))
Tree(want) == Chk("state", Ev.tree = want, "objects " \o ToString(Ev.tree) \o "; specified " \o ToString(want))
Errs == ChkEq("error-settings", Ev.errs[2], Ev.errs[1])
WorldEv == Is("world") /\ w' = Ev.w /\ results' = <<>> /\ forks' = <<>> /\ Tree(ExpTree(Ev.w))
SetEv == Is("set") /\ LET v == Apply(w, Ev.op) IN w' = v /\ UNCHANGED <<results, forks>> /\ Chk("raises", Ev.err = "", Ev.err) /\ Tree(ExpTree(v))
SpoilEv == Is("spoil") /\ UNCHANGED <<w, results, forks>> /\ Tree(ExpTree(w))
PartTree == CASE Ev.what = "disp" -> DispTree(w, Ev.i) [] Ev.what = "mat" -> MatTree(w, Ev.i) [] Ev.what = "layer" -> LayerTree(w, Ev.i) [] Ev.what = "structure" -> StructTree(w)
PartEv == Is("part") /\ UNCHANGED <<w, results, forks>> /\ Tree(PartTree) /\ Agree("evaluation", Ev.obs, Ev.fresh) /\ Same("repeated", Ev.again, Ev.obs) /\ Errs
About == <<w.exp.lbda, w.exp.theta, w.exp.vec>>
EvalEv == Is("evaluate") /\ UNCHANGED <<w, forks>>
  /\ results' = Append(results, [obs |-> Ev.obs, about |-> About])
  /\ Tree(ExpTree(w)) /\ Agree("evaluation", Ev.obs, Ev.fresh) /\ Same("repeated", Ev.again, Ev.obs) /\ Errs
  /\ IF Ev.failed THEN TRUE ELSE ChkEq("about", Ev.about, About)
RereadEv == Is("reread") /\ UNCHANGED <<w, results, forks>> /\ Same("result", Ev.obs, results[Ev.r].obs) /\ ChkEq("about", Ev.about, results[Ev.r].about)
ForkEv == Is("fork") /\ forks' = Append(forks, StructTree(w)) /\ UNCHANGED <<w, results>> /\ Chk("raises", Ev.err = "", Ev.err)
EvalForkEv == Is("evalfork") /\ UNCHANGED <<w, results, forks>> /\ Chk("copy-state", Ev.tree = forks[Ev.n], "copy " \o ToString(Ev.tree) \o "; specified " \o ToString(forks[Ev.n]))
  /\ Agree("copy", Ev.obs, Ev.fresh) /\ Errs
Next == WorldEv \/ SetEv \/ SpoilEv \/ PartEv \/ EvalEv \/ RereadEv \/ ForkEv \/ EvalForkEv
Spec == Init /\ [][Next]_vars
=============================================================================
