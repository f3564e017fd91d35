---------------------------- MODULE SymbolTrace ----------------------------
(* Recorded histories of additions and looks, with their answers. *)
EXTENDS SymbolTable, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, tabs
vars == <<i, k, tabs>>
Init == i \in 1..Len(Runs) /\ k = 0 /\ tabs = [t \in 1..Runs[i].tables |-> NoTable]
Op == Runs[i].ops[k + 1]
Allowed == LET tab == tabs[Op.t] IN
    CASE Op.op = "add" -> Op.r = Added(tab, Op.x)
      [] Op.op = "get" -> Op.v = Found(tab, Op.x)
      [] Op.op = "exists" -> Op.r = IF Has(tab, Op.x) THEN "yes" ELSE "no"
Next == /\ k < Len(Runs[i].ops) /\ Allowed
        /\ tabs' = IF Op.op = "add" THEN [tabs EXCEPT ![Op.t] = Put(@, Op.x, Op.v)] ELSE tabs
        /\ k' = k + 1 /\ i' = i
Spec == Init /\ [][Next]_vars
Judged == IF k = Len(Runs[i].ops) THEN PrintT("ACCEPT " \o ToString(i))
          ELSE IF ~ Allowed THEN PrintT("REJECT " \o ToString(i) \o " operation " \o ToString(k + 1) \o ": " \o ToString(Op)) ELSE TRUE
=============================================================================
