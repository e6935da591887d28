---------------------------- MODULE Tr_ResultList ----------------------------
(***************************************************************************)
(* Recorded lists of results against ResultList.  The values of a member   *)
(* are those it gave itself, learned with "learn" events.                  *)
(*  new | append   m n           members (indices), length afterwards      *)
(*  learn          m attr v      what a member gives for an attribute      *)
(*  member         i attr v      the i-th member again                     *)
(*  list | mean    attr err v    what the list gives                       *)
(*  remean         err           the mean of a mean                        *)
(***************************************************************************)
EXTENDS ResultList, TraceBase
VARIABLES list, known
vars == <<l, list, known>>
Init == l = 1 /\ list = <<>> /\ known = <<>>
None == [a \in {} |-> 0]
Get(m) == known[m][Ev.attr]
Values == [i \in 1..Len(list) |-> Get(list[i])]
NewEv == Is("new") /\ list' = Ev.m /\ known' = [m \in 1..Ev.pool |-> None] /\ ChkEq("length", Ev.n, Len(list'))
AppendEv == Is("append") /\ list' = Append(list, Ev.m) /\ UNCHANGED known /\ ChkEq("length", Ev.n, Len(list'))
LearnEv == Is("learn") /\ UNCHANGED list /\ known' = [known EXCEPT ![Ev.m] = (Ev.attr :> Ev.v) @@ @]
MemberEv == Is("member") /\ UNCHANGED <<list, known>> /\ ChkSeq("member-changed", Ev.v, Get(list[Ev.i]), 0, 0)
ReadEv ==
  /\ Is("list") \/ Is("mean")
  /\ UNCHANGED <<list, known>>
  /\ Chk("raises", Ev.err = "", Ev.attr \o ": " \o Ev.err)
  /\ IF Ev.err # "" THEN TRUE
     ELSE IF Ev.ev = "list" THEN ChkSeq("list", Ev.v, Collected(Values), 0, 0)
     ELSE LET vs == Values w == Mean(vs) IN
          IF Len(Ev.v) # Len(w) THEN Chk("mean", FALSE, Ev.attr \o ": length " \o ToString(Len(Ev.v)))
          ELSE \A i \in 1..Len(w) : LET size == NSumSeq([m \in 1..Len(vs) |-> NAbs(vs[m][i])]) IN
               Chk("mean", Close(Ev.v[i], w[i], size (.) "1e-13", 0), Ev.attr \o " observed " \o Show(Ev.v[i]) \o ", specified " \o Show(w[i]))
RemeanEv == Is("remean") /\ UNCHANGED <<list, known>> /\ Chk("mean-of-mean", Ev.err # "", "accepted")
Next == NewEv \/ AppendEv \/ LearnEv \/ MemberEv \/ ReadEv \/ RemeanEv
Spec == Init /\ [][Next]_vars
=============================================================================
