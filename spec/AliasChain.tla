----------------------------- MODULE AliasChain -----------------------------
(***************************************************************************)
(* A range whose ends are reached through chains of names, r = x op y with *)
(* x and y a literal or a name n1 = n2, n2 = n3 ... up to a last one that  *)
(* stands for something.  How long the chains are and in which order the   *)
(* rules stand makes no difference: TLC checks that for all small chains   *)
(* and orders, so one answer per kind of end is printed, for any length.   *)
(***************************************************************************)
EXTENDS ParseCases
CONSTANTS MaxChain

Ends == {"int", "float", "text", "type", "range", "undefined", "cycle"}
Lits == {"int", "float"}
Value == [int |-> <<Num("5")>>, float |-> <<Float("2.5")>>, text |-> <<Txt("t")>>, type |-> <<T("uint")>>, range |-> <<Num("1"), T(".."), Num("2")>>,
          undefined |-> <<>>, cycle |-> <<>>]
Names == << <<"x1", "x2", "x3", "x4", "x5">>, <<"y1", "y2", "y3", "y4", "y5">> >>
\* the rules of a chain of n names that ends at a kind; n = 0: the end is a literal, no rules
Rule(name, toks) == <<Id(name), T("=")>> \o toks
Chain(s, n, kind) == [j \in 1..n |-> IF j < n THEN Rule(Names[s][j], <<Id(Names[s][j + 1])>>)
                                     ELSE IF kind = "undefined" THEN Rule(Names[s][j], <<Id(Names[s][j + 1])>>) \* which nothing defines
                                     ELSE IF kind = "cycle" THEN Rule(Names[s][j], <<Id(Names[s][1])>>)
                                     ELSE Rule(Names[s][j], Value[kind])]
EndTok(s, n, kind) == IF n = 0 THEN Value[kind][1] ELSE Id(Names[s][1])

VARIABLES c \* op, and for either end its length and kind
vars == <<c>>
Init == c \in [op : {"..", "..."}, n : (0..MaxChain) \X (0..MaxChain), e : Ends \X Ends]
        /\ \A s \in 1..2 : c.n[s] = 0 => c.e[s] \in Lits
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

RuleR == Rule("r", <<EndTok(1, c.n[1], c.e[1]), T(c.op), EndTok(2, c.n[2], c.e[2])>>)
All == <<RuleR>> \o Chain(1, c.n[1], c.e[1]) \o Chain(2, c.n[2], c.e[2])
Flat(rs) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, rs)
Orders == {All, [j \in 1..Len(All) |-> All[Len(All) + 1 - j]],
           Tail(All) \o <<RuleR>>, Chain(2, c.n[2], c.e[2]) \o <<RuleR>> \o Chain(1, c.n[1], c.e[1])}
Diag(rs) == LET f == Parse(Flat(rs)) IN [range |-> \E j \in 1..Len(f.diags) : f.diags[j][2] \in {"range-kind", "range-mixed", "range-end"},
                                        undef |-> Cardinality({j \in 1..Len(f.diags) : f.diags[j][2] = "undef"}),
                                        rest |-> \E j \in 1..Len(f.diags) : f.diags[j][2] \notin {"range-kind", "range-mixed", "range-end", "undef"}]
\* the answer, from the kinds alone
NoNumber == {"text", "type", "range", "cycle"}
Want == [range |-> c.e[1] \in NoNumber \/ c.e[2] \in NoNumber \/ {c.e[1], c.e[2]} = {"int", "float"},
         undef |-> (IF c.e[1] = "undefined" THEN 1 ELSE 0) + (IF c.e[2] = "undefined" THEN 1 ELSE 0), rest |-> FALSE]
Inv_Chains == \A o \in Orders : Diag(o) = Want

Emitted == c.n[1] \in {0, MaxChain} /\ c.n[2] \in {0, MaxChain} =>
    PrintT("CASE " \o ToJson([op |-> c.op, ends |-> <<EndTok(1, 0, IF c.n[1] = 0 THEN c.e[1] ELSE "int"), EndTok(2, 0, IF c.n[2] = 0 THEN c.e[2] ELSE "int")>>,
                              named |-> <<c.n[1] > 0, c.n[2] > 0>>, kinds |-> c.e,
                              values |-> <<Value[c.e[1]], Value[c.e[2]]>>, range |-> Want.range, undef |-> Want.undef]))
=============================================================================
