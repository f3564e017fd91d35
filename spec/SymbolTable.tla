---------------------------- MODULE SymbolTable ----------------------------
(***************************************************************************)
(* Symbol tables: a name gets the first node that is added for it, in the  *)
(* table it is added to, and keeps it, be it no node (0).  Looking does    *)
(* not change anything.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

NoTable == [x \in {} |-> 0]
Has(tab, x) == x \in DOMAIN tab
\* what adding answers and leaves
Added(tab, x) == IF Has(tab, x) THEN "exists" ELSE "ok"
Put(tab, x, v) == IF Has(tab, x) THEN tab ELSE [y \in DOMAIN tab \cup {x} |-> IF y = x THEN v ELSE tab[y]]
\* what looking answers: 0 for nothing
Found(tab, x) == IF Has(tab, x) THEN tab[x] ELSE 0
=============================================================================
