------------------------------- MODULE Tr_Plots -------------------------------
(***************************************************************************)
(* Recorded drawings against Plots, of structures under histories of       *)
(* setter calls (Containers).                                              *)
(*   draw    id method err pieces xlim     draw_structure; pieces [a, b, n]*)
(*   index   id v err slices               get_index_profile               *)
(*   mueller cols tables single colors dashes names full share err curves  *)
(*           axes after                    plot_mmatrix                    *)
(***************************************************************************)
EXTENDS Tr_Containers, Plots

Slices(id) == LET p == Profile(id) IN Force([i \in 1..Len(p) |-> [d |-> p[i].d, eps |-> SliceTensor(p[i])]])
Still == UNCHANGED <<objs, mats>> /\ Quiet

Drawn(pieces, z) == {k \in 1..Len(pieces) : NLeq(pieces[k].a, z) /\ NLt(z, pieces[k].b)}
(* ns: the index of each slice *)
At(pieces, p, ns, z) ==
  LET c == Drawn(pieces, z) want == ns[SliceAt(p, z)] IN
  IF c = {} THEN Chk("nothing-drawn", FALSE, "at depth " \o Show(z))
  ELSE \A k \in c : Chk("index-drawn", Close(pieces[k].n, want, "1e-9", "1e-9"),
                        "at depth " \o Show(z) \o " observed " \o Show(pieces[k].n) \o ", specified " \o Show(want))
DrawEv ==
  /\ Is("draw") /\ Still
  /\ IF Ev.err # "" THEN Chk("draw-raises", FALSE, Ev.err)
     ELSE LET p == Slices(Ev.id)
              total == NSumSeq([i \in 1..(Len(p) - 2) |-> N(p[i + 1].d)])
              ns == Force([i \in 1..Len(p) |-> Re(IndexAlong(p[i].eps, EX))])
          IN /\ Chk("half-spaces-shown", NLt(Ev.xlim[1], 0) /\ NLt(total, Ev.xlim[2]), "from " \o Show(Ev.xlim[1]) \o " to " \o Show(Ev.xlim[2]))
             /\ At(Ev.pieces, p, ns, N(Ev.xlim[1]) (/) 2)
             /\ At(Ev.pieces, p, ns, (total (+) Ev.xlim[2]) (/) 2)
             /\ \A i \in Inner(p) : IF NEq(p[i].d, 0) THEN TRUE
                ELSE \A f \in {"1/1000000", "1/2", "999999/1000000"} : At(Ev.pieces, p, ns, Top(p, i) (+) (f (.) p[i].d))
IndexEv ==
  /\ Is("index") /\ Still
  /\ IF Ev.err # "" THEN Chk("index-profile-raises", FALSE, Ev.err)
     ELSE LET p == Slices(Ev.id) v == Force([i \in 1..3 |-> N(Ev.v[i])]) IN
          IF Len(Ev.slices) # Len(p) THEN Chk("index-profile-length", FALSE, ToString(Len(Ev.slices)) \o ", specified " \o ToString(Len(p)))
          ELSE \A i \in 1..Len(p) :
            /\ Chk("index-profile-thickness", IF p[i].d = "inf" THEN Ev.slices[i].d = "inf" ELSE Close(Ev.slices[i].d, p[i].d, "1e-12", "1e-9"), "slice " \o ToString(i))
            /\ LET want == IndexAlong(p[i].eps, v) IN
               (* of the two roots of an almost real negative number either *)
               Chk("index-profile", Close(Ev.slices[i].n, want, "1e-9", "1e-9") \/ (Close(Re(want), 0, "1e-9", 0) /\ Close(N(Ev.slices[i].n) (+) want, 0, "1e-9", 0)),
                   "slice " \o ToString(i) \o " observed " \o Show(Ev.slices[i].n) \o ", specified " \o Show(want))

(* curves *)
Wanted(i, j) == [x |-> Ev.tables[j].x, y |-> Ev.tables[j].y[i],
                 name |-> IF Cycle(Ev.names, j) = "" THEN Ev.cols[i] ELSE Ev.cols[i] \o " " \o Cycle(Ev.names, j),
                 color |-> Cycle(Ev.colors, i), dash |-> Cycle(Ev.dashes, j), panel |-> IF Ev.single THEN <<1, 1>> ELSE Panel(i)]
MuellerEv ==
  /\ Is("mueller") /\ Still
  /\ IF Ev.err # "" THEN Chk("plot-mmatrix-raises", FALSE, Ev.err)
     ELSE /\ ChkEq("curves", Len(Ev.curves), Len(Ev.cols) * Len(Ev.tables))
          /\ \A i \in 1..Len(Ev.cols) : \A j \in 1..Len(Ev.tables) :
               LET w == Wanted(i, j) IN
               Chk("curve", \E k \in 1..Len(Ev.curves) : Ev.curves[k] = w, Ev.cols[i] \o " of table " \o ToString(j))
          /\ Chk("tables-changed", Ev.after = Ev.tables, "")
          /\ Chk("full-scale", (Ev.full /\ ~Ev.single) => \A k \in 1..Len(Ev.axes) : Ev.axes[k].range = <<"-1", "1">>, "")
          /\ Chk("shared-axis", Ev.share => \A k \in 1..Len(Ev.axes) : Ev.axes[k].matches = "x", "")
PNext == Next \/ DrawEv \/ IndexEv \/ MuellerEv
PSpec == Init /\ [][PNext]_vars
=============================================================================
