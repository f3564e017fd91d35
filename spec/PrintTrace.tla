----------------------------- MODULE PrintTrace -----------------------------
(***************************************************************************)
(* Recorded printed forms: the facts read from one have to be those the    *)
(* machine tells about the tree.                                           *)
(***************************************************************************)
EXTENDS TreePrint, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, k
vars == <<i, s, k>>
Init == i \in 1..Len(Runs) /\ k = 0 /\ s = Printing(Runs[i].root)
Next == /\ k < Len(Runs[i].told) /\ ~ Printed(s)
        /\ Fact(Head(s.todo)) = Runs[i].told[k + 1]
        /\ s' = [Tell(s) EXCEPT !.told = <<>>] /\ k' = k + 1 /\ i' = i
Spec == Init /\ [][Next]_vars
Judged == IF k = Len(Runs[i].told) /\ Printed(s) THEN PrintT("ACCEPT " \o ToString(i))
          ELSE IF ~ ENABLED Next THEN PrintT("REJECT C24 " \o ToString(i) \o " fact " \o ToString(k + 1) \o ", expected " \o
                  (IF Printed(s) THEN "the end" ELSE ToString(Fact(Head(s.todo))))) ELSE TRUE
=============================================================================
