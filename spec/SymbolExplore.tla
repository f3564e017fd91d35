--------------------------- MODULE SymbolExplore ---------------------------
(* All histories of additions to several tables. *)
EXTENDS SymbolTable
CONSTANTS Tables, Names, Values, MaxOps
VARIABLES tabs, log
vars == <<tabs, log>>
Init == tabs = [t \in 1..Tables |-> NoTable] /\ log = <<>>
Next == /\ Len(log) < MaxOps
        /\ \E t \in 1..Tables, x \in 1..Names, v \in 0..Values - 1 :
             LET after == [tabs EXCEPT ![t] = Put(@, x, v)] IN
             /\ tabs' = after
             /\ log' = Append(log, [t |-> t, x |-> x, v |-> v, r |-> Added(tabs[t], x),
                                    see |-> [u \in 1..Tables |-> [y \in 1..Names |-> <<IF Has(after[u], y) THEN 1 ELSE 0, Found(after[u], y)>>]]])
Spec == Init /\ [][Next]_vars

\* on the history alone: a name has the node of its first addition to that table
First(t, x) == LET S == {i \in 1..Len(log) : log[i].t = t /\ log[i].x = x} IN IF S = {} THEN 0 ELSE log[CHOOSE i \in S : \A j \in S : i <= j].v
Inv_First == \A t \in 1..Tables, x \in 1..Names : Found(tabs[t], x) = First(t, x)
Inv_Once == \A t \in 1..Tables, x \in 1..Names : Cardinality({i \in 1..Len(log) : log[i].t = t /\ log[i].x = x /\ log[i].r = "ok"}) <= 1
Kept == [][\A t \in 1..Tables, x \in 1..Names : Has(tabs[t], x) => Has(tabs'[t], x) /\ tabs'[t][x] = tabs[t][x]]_vars
Emitted == Len(log) = MaxOps => PrintT("CASE " \o ToJson([tables |-> Tables, ops |-> log]))
=============================================================================
