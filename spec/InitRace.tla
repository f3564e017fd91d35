------------------------------ MODULE InitRace ------------------------------
(***************************************************************************)
(* Processes running `init` in one directory at the same time.  What has   *)
(* the name of the configuration is an entry of some kind; opening it      *)
(* exclusively is one step of the file system.  With Exclusive FALSE the   *)
(* processes look first and create then, as programs without exclusive     *)
(* creation do: TLC finds the schedules in which that breaks the           *)
(* invariants, which shows that the schedules reach it.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs,      \* how many
          Kinds,      \* what may be there before
          Dirs,       \* "open" or "sealed": whether the directory can be written
          Neighbours, \* sets of other names that are there
          Parts,      \* writes per process
          Exclusive, Alone \* Alone: one process after the other
P == 1..Procs
VARIABLES entry, text, pre, wd, near, at, result, sched
vars == <<entry, text, pre, wd, near, at, result, sched>>
Init == /\ pre \in Kinds /\ wd \in Dirs /\ near \in Neighbours /\ entry = pre /\ text = <<>>
        /\ at = [p \in P |-> "idle"] /\ result = [p \in P |-> 99] /\ sched = <<>>
Said(p, what) == sched' = Append(sched, <<p, what>>)
Move(p, a) == at' = [at EXCEPT ![p] = a]
End(p, r) == Move(p, "end") /\ result' = [result EXCEPT ![p] = r]
Start(p) == /\ at[p] = "idle" /\ \A q \in P : q < p => at[q] # "idle"
            /\ Alone => \A q \in P \ {p} : at[q] \in {"idle", "end"}
            /\ Move(p, "started") /\ Said(p, "start") /\ UNCHANGED <<entry, text, pre, wd, near, result>>
Open(p) == /\ Exclusive /\ at[p] = "started" /\ Said(p, "open")
           /\ IF entry = "none" /\ wd = "open" THEN entry' = "new" /\ text' = <<>> /\ Move(p, "opened") /\ UNCHANGED result
              ELSE End(p, 1) /\ UNCHANGED <<entry, text>>
           /\ UNCHANGED <<pre, wd, near>>
Write(p) == /\ at[p] = "opened" /\ Said(p, "write")
            /\ text' = Append(text, p)
            /\ IF Len(SelectSeq(text', LAMBDA q : q = p)) = Parts THEN End(p, 0) ELSE UNCHANGED <<at, result>>
            /\ UNCHANGED <<entry, pre, wd, near>>
\* the variant
Look(p) == /\ ~ Exclusive /\ at[p] = "started" /\ Said(p, "look")
           /\ IF entry \in {"none", "dangling"} THEN Move(p, "looked") /\ UNCHANGED result ELSE End(p, 1)
           /\ UNCHANGED <<entry, text, pre, wd, near>>
Create(p) == /\ ~ Exclusive /\ at[p] = "looked" /\ Said(p, "open")
             /\ IF wd = "open" THEN entry' = "new" /\ text' = <<>> /\ Move(p, "opened") /\ UNCHANGED result ELSE End(p, 1) /\ UNCHANGED <<entry, text>>
             /\ UNCHANGED <<pre, wd, near>>
Next == \E p \in P : Start(p) \/ Open(p) \/ Write(p) \/ Look(p) \/ Create(p)
ISpec == Init /\ [][Next]_vars

Over == \A p \in P : at[p] = "end"
Winners == {p \in P : result[p] = 0}
\* C19
Inv_Once == (Over /\ pre = "none" /\ wd = "open") =>
            /\ Cardinality(Winners) = 1 /\ entry = "new"
            /\ \E p \in Winners : text = [i \in 1..Parts |-> p]
Inv_Never == (pre # "none" \/ wd = "sealed") => entry = pre /\ text = <<>> /\ Winners = {}
Inv_Others == Cardinality({p \in P : at[p] = "opened"} \cup Winners) <= 1
\* there is no schedule in which everyone waits
Inv_Ends == Over \/ ENABLED Next
Emitted == Over => PrintT("CASE " \o ToJson([pre |-> pre, wd |-> wd, near |-> near, procs |-> Procs, sched |-> sched, oks |-> Cardinality(Winners), after |-> entry]))
=============================================================================
