----------------------------- MODULE WalkTrace -----------------------------
(***************************************************************************)
(* Recorded walks: the calls made have to be a behaviour of CddlWalk over  *)
(* the tree walked.                                                        *)
(***************************************************************************)
EXTENDS CddlWalk, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, w, k
vars == <<i, w, k>>
Root(j) == Renumber(Runs[j].root, 1)
Init == \E j \in 1..Len(Runs) : i = j /\ k = 0 /\ w = Begin(Root(j))
Unlogged(x) == [x EXCEPT !.log = <<>>]
\* the next call recorded, if the walk allows it
Next == /\ k < Len(Runs[i].log)
        /\ LET e == Runs[i].log[k + 1] IN
           \/ AtNode(w) /\ e[1] = "visit" /\ e[2] = Number(Head(w.todo)[2]) /\ e[3] = Head(w.todo)[3]
              /\ e[4] \in {0, w.used + 1}
              /\ w' = Unlogged(IF e[4] = 0 THEN Decline(w) ELSE Enter(w))
           \/ AtEnd(w) /\ e[1] = "end" /\ e[2] = Head(w.todo)[2] /\ w' = Unlogged(Close(w))
        /\ k' = k + 1 /\ i' = i
Spec == Init /\ [][Next]_vars
Judged == IF k = Len(Runs[i].log) /\ Ended(w) THEN PrintT("ACCEPT " \o ToString(i))
          ELSE IF ~ ENABLED Next THEN PrintT("REJECT C14 " \o ToString(i) \o " after " \o ToString(k) \o " calls") ELSE TRUE
=============================================================================
