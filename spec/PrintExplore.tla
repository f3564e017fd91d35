---------------------------- MODULE PrintExplore ----------------------------
(***************************************************************************)
(* The printed forms of the definitions of every tree of the grammar.      *)
(***************************************************************************)
EXTENDS CddlGrammar, TreePrint

VARIABLES ph, root, s
pvars == <<tr, d, ph, root, s>>

Final == Parse(Source)
RuleOf(f) == CHOOSE n \in {f.out[i] : i \in 1..Len(f.out)} : Text(Kids(n)[1]) = "rule"
PInit == Init /\ ph = "grow" /\ root = NoNode /\ s = Printing(NoNode)
Grow == ph = "grow" /\ Next /\ UNCHANGED <<ph, root, s>>
StartPrint == /\ ph = "grow" /\ ph' = "print"
              /\ root' = Kids(RuleOf(Final))[2] /\ s' = Printing(root')
              /\ UNCHANGED <<tr, d>>
Telling == ph = "print" /\ ~ Printed(s) /\ s' = Tell(s) /\ UNCHANGED <<tr, d, ph, root>>
PNext == Grow \/ StartPrint \/ Telling
PSpec == PInit /\ [][PNext]_pvars
Done == ph = "print" /\ Printed(s)

\* independently: the nodes that only choices and enumerations are around, parents first, in order
RECURSIVE Open(_)
Open(n) == <<n>> \o (IF Kind(n) \in {"choice", "enum"} THEN FoldLeft(LAMBDA acc, k : acc \o Open(k), <<>>, Kids(n)) ELSE <<>>)
RECURSIVE Count(_)
Count(n) == 1 + FoldLeft(LAMBDA acc, k : acc + Count(k), 0, Kids(n))
Inv_Told == Done => LET o == Open(root) IN Len(s.told) = Len(o) /\ \A i \in 1..Len(o) : s.told[i][1] = Kind(o[i])
Inv_Ends == ph = "print" => Len(s.told) <= Count(root)
\* what is told is told where it is: no two facts of a kind at one place
Inv_Placed == Done => \A i, j \in 1..Len(s.told) : (i # j /\ s.told[i][3] # 0) => s.told[i][1] # s.told[j][1] \/ s.told[i][3] # s.told[j][3] \/ s.told[i][1] = "choice"
EmittedPrint == Done => PrintT("CASE " \o ToJson([toks |-> [i \in 1..Len(Source) |-> TokJson(Source[i])], told |-> s.told]))
=============================================================================
