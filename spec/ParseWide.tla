----------------------------- MODULE ParseWide -----------------------------
(***************************************************************************)
(* Groups, arrays and maps of many members: what the machine makes of the  *)
(* third member is what it makes of the second, so what it makes of the    *)
(* ten-thousandth is known.                                                *)
(* Printed: what opens the list, the members that are repeated, what       *)
(* closes it, and the nodes of the first and of every further repetition.  *)
(***************************************************************************)
EXTENDS ParseCases
CONSTANTS MaxMembers

Single == {<<Id("k"), T(":"), T("int")>>, <<Id("d")>>, <<T("?"), Id("k"), T(":"), T("tstr")>>, <<T("*"), Id("d")>>, <<T("+"), T("int")>>,
           <<Num("2"), T("*"), Num("3"), Id("d")>>, <<Num("1"), T(":"), T("bool")>>, <<T("["), Id("d"), T("]")>>, <<Id("k"), T(":"), T("("), Id("k"), T(":"), T("uint"), T(")")>>,
           <<Txt("t")>>, <<Num("5")>>, <<Float("1.5")>>, <<T("tstr")>>, <<Id("k"), T(":"), Id("d"), T("/"), Num("1"), T(".."), Num("9")>>,
           <<T("#"), Float("6.1"), T("("), Id("d"), T(")")>>, <<T("&"), Id("d")>>, <<T("~"), Id("d")>>, <<Id("k"), T(":"), T("tstr"), T(".size"), Num("3")>>,
           <<Id("$s"), T("//"), Id("d")>>, <<T("int"), T(".lt"), Num("7")>>}
Ends == {<<>>, <<T(",")>>, <<T(","), Rem(" c")>>, <<Rem(" d")>>, <<RemLn(" e")>>}
Members == {m \o e : m \in Single, e \in Ends}
Brackets2 == {<<"(", ")">>, <<"[", "]">>, <<"{", "}">>}
Afterwards == <<Id("zz"), T("="), T("bool"), Id("d"), T("="), T("int")>>

VARIABLES br, ms
vars == <<br, ms>>
Init == br \in Brackets2 /\ ms = <<>>
Next == /\ Len(ms) < MaxMembers /\ UNCHANGED br
        /\ \E m \in (IF ms = <<>> THEN Members ELSE {x \in Members : x[Len(x)].k \in {",", "COMMENT", "int", "]"}}) : ms' = Append(ms, m)
Spec == Init /\ [][Next]_vars

Before == <<Id("x"), T("="), T(br[1])>>
Body == FoldLeft(LAMBDA acc, m : acc \o m, <<>>, ms)
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
F(n) == Parse(Before \o Times(Body, n) \o <<T(br[2])>> \o Afterwards)
RECURSIVE Shifted(_, _)
Shifted(n, d) == <<n[1], IF n[2] = 0 THEN 0 ELSE n[2] - d, n[3], [j \in 1..Len(n[4]) |-> Shifted(n[4][j], d)]>>
ShiftAll(s, d) == [j \in 1..Len(s) |-> Shifted(s[j], d)]
\* the rule and its list; comments that belong to no member are not part of the tree
Rule1(f) == f.out[1]
List(f) == Kids(Rule1(f))[2]
Part(f, k) == LET all == Kids(List(f))
                  lo == Len(Before) + (k - 1) * Len(Body)
                  mine == SelectSeq(all, LAMBDA n : Start(n) > lo /\ Start(n) <= lo + Len(Body))
              IN ShiftAll(mine, lo)
Rest(f, n) == ShiftAll(SubSeq(f.out, 2, Len(f.out)), Len(Before) + n * Len(Body))
Periodic == LET f == F(3) g == F(4) IN
    /\ f.diags = <<>> /\ g.diags = <<>>
    /\ Part(f, 1) = Part(g, 1) /\ Part(f, 2) = Part(g, 2) /\ Part(f, 2) = Part(f, 3) /\ Part(g, 3) = Part(g, 4) /\ Part(f, 3) = Part(g, 3)
    /\ Len(Kids(List(f))) = Len(Part(f, 1)) + 2 * Len(Part(f, 2)) /\ Len(Kids(List(g))) = Len(Part(g, 1)) + 3 * Len(Part(g, 2))
    /\ Rest(f, 3) = Rest(g, 4)
\* a list whose members end with commas is well-formed at any length, and so is every member's part
Inv_Wide == (ms # <<>> /\ \A j \in 1..Len(ms) : \E h \in 1..Len(ms[j]) : ms[j][h].k = "," /\ \A i \in h + 1..Len(ms[j]) : ms[j][i].k = "COMMENT") => Periodic
WEmitted == (ms # <<>> /\ Periodic) =>
    LET f == F(3) IN
    PrintT("CASE " \o ToJson([before |-> [j \in 1..Len(Before) |-> TokJson(Before[j])], body |-> [j \in 1..Len(Body) |-> TokJson(Body[j])],
                              after |-> [j \in 1..Len(Afterwards) + 1 |-> TokJson((<<T(br[2])>> \o Afterwards)[j])],
                              list |-> <<Kind(List(f)), Start(List(f)), Text(List(f)), <<>>>>, rule |-> <<Kind(Rule1(f)), Start(Rule1(f)), Text(Rule1(f)), <<Kids(Rule1(f))[1]>>>>,
                              first |-> Part(f, 1), again |-> Part(f, 2), rest |-> Rest(f, 3)]))
=============================================================================
