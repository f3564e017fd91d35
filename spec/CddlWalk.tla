------------------------------ MODULE CddlWalk ------------------------------
(***************************************************************************)
(* A walk over a syntax tree.  Nodes are <<kind, number, text, children>>, *)
(* numbered in preorder.  The visitor decides at every node whether to go  *)
(* on below it, with which visitor, and is told when what is below a node  *)
(* is done.                                                                *)
(*                                                                         *)
(* todo: what is left to do, in order: <<"node", node, visitor>> and       *)
(* <<"end", visitor>>.  log: the calls made: <<"visit", number, visitor,   *)
(* visitor returned>> (0: declined) and <<"end", visitor>>.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Below(n) == n[4]
Number(n) == n[2]
RECURSIVE Size(_)
Size(n) == 1 + FoldLeft(LAMBDA s, k : s + Size(k), 0, Below(n))
RECURSIVE Renumber(_, _)
Renumber(n, i) ==
    LET kids == FoldLeft(LAMBDA acc, k : [at |-> acc.at + Size(k), ks |-> Append(acc.ks, Renumber(k, acc.at))],
                         [at |-> i + 1, ks |-> <<>>], Below(n))
    IN <<n[1], i, n[3], kids.ks>>

Begin(root) == [todo |-> << <<"node", root, 0>> >>, log |-> <<>>, used |-> 0]
Ended(w) == w.todo = <<>>
AtNode(w) == ~ Ended(w) /\ Head(w.todo)[1] = "node"
AtEnd(w) == ~ Ended(w) /\ Head(w.todo)[1] = "end"
\* the visitor goes on below the node with a new visitor
Enter(w) == LET n == Head(w.todo)[2]  v == w.used + 1 IN
    [todo |-> [i \in 1..Len(Below(n)) |-> <<"node", Below(n)[i], v>>] \o << <<"end", v>> >> \o Tail(w.todo),
     log |-> Append(w.log, <<"visit", Number(n), Head(w.todo)[3], v>>), used |-> v]
Decline(w) == LET n == Head(w.todo)[2] IN
    [w EXCEPT !.todo = Tail(@), !.log = Append(@, <<"visit", Number(n), Head(w.todo)[3], 0>>)]
Close(w) == [w EXCEPT !.todo = Tail(@), !.log = Append(@, <<"end", Head(w.todo)[2]>>)]

(***************************************************************************)
(* The same, on a finished log alone                                       *)
(***************************************************************************)
RECURSIVE NodesOf(_, _)
\* all nodes with the number of the node above
NodesOf(n, up) == {<<Number(n), up, Size(n)>>} \cup UNION {NodesOf(Below(n)[i], Number(n)) : i \in 1..Len(Below(n))}
Visits(log) == SelectSeq(log, LAMBDA e : e[1] = "visit")
VisitOf(log, m) == LET S == {i \in 1..Len(log) : log[i][1] = "visit" /\ log[i][2] = m} IN IF Cardinality(S) = 1 THEN CHOOSE i \in S : TRUE ELSE 0
Lawful(root, log) ==
    LET all == NodesOf(root, 0)
        vs == Visits(log)
        seen == {vs[i][2] : i \in 1..Len(vs)}
        refused == {vs[i][2] : i \in {j \in 1..Len(vs) : vs[j][4] = 0}}
        hidden == {x[1] : x \in {y \in all : \E z \in all : z[1] \in refused /\ y[1] > z[1] /\ y[1] < z[1] + z[3]}}
    IN /\ seen = {x[1] : x \in all} \ hidden                              \* every node that is not below a declined one
       /\ \A i \in 1..Len(vs) - 1 : vs[i][2] < vs[i + 1][2]               \* once, parents first, in order
       /\ \A x \in all : x[1] \in seen =>
            LET e == log[VisitOf(log, x[1])]
                ends == {i \in 1..Len(log) : log[i][1] = "end" /\ log[i][2] = e[4]}
            IN /\ x[2] # 0 => e[3] = log[VisitOf(log, x[2])][4]           \* with the visitor returned for its parent
               /\ IF e[4] = 0 THEN TRUE
                  ELSE /\ Cardinality(ends) = 1                           \* one closing call
                       /\ \A i \in ends :                                 \* after everything below, before anything else
                             \A j \in 1..Len(log) : log[j][1] = "visit" =>
                                (j < i <=> log[j][2] < x[1] + x[3])
       /\ \A i \in 1..Len(log) : log[i][1] = "end" => \E j \in 1..Len(vs) : vs[j][4] = log[i][2]
=============================================================================
