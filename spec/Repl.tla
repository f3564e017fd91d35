-------------------------------- MODULE Repl --------------------------------
(***************************************************************************)
(* Interactive sessions: lines are typed, each a source made of whole      *)
(* rules or a command.  What a line is read with is the environment that   *)
(* the lines before left; commands only look.  The invariants of           *)
(* ParseNames hold for the sources of a session; here are those about the  *)
(* commands.  Each session is printed with what every line has to answer.  *)
(***************************************************************************)
EXTENDS ParseNames
CONSTANTS Cmds, MaxItems

Cmd(c, text, names) == [c |-> c, text |-> text, names |-> names]
M_Few == {Cmd("pv", ":pv", <<>>), Cmd("tree", ":tree a b", <<"a", "b">>), Cmd("exit", ":exit", <<>>)}
M_All == M_Few \cup {Cmd("tree", ":tree", <<>>), Cmd("tree", ":tree c = int", <<"c", "=", "int">>), Cmd("tree", ":tree d", <<"d">>), Cmd("tree", ":tree nope r a e", <<"nope", "r", "a", "e">>),
                     Cmd("help", ":help", <<>>), Cmd("help", ":help c = int", <<>>), Cmd("blank", "", <<>>), Cmd("blank", "   ", <<>>), Cmd("blank", "; b = int", <<>>), Cmd("blank", ";:exit", <<>>)}

\* rules that fit on a line
C_Repl == {
    One("a", <<T("int")>>, "other"), Chunk("a", "=", <<T("["), Id("b"), T("]")>>, <<"b">>, "other", <<>>), Alias("b", "a"), One("b", <<Float("2.5")>>, "float"),
    Chunk("a", "/=", <<Id("c")>>, <<"c">>, "c", <<>>), Chunk("c", "=", <<T("("), Id("k"), T(":"), Id("a"), T(")"), Rem(" :exit")>>, <<"a">>, "other", <<>>),
    Bad(<<Id("c"), T("="), T(")")>>, FALSE), Bad(<<T(":"), Id("b")>>, FALSE)}
C_ReplFew == {
    One("a", <<T("int")>>, "other"), Alias("b", "a"), One("a", <<Txt("x")>>, "other"), Bad(<<Id("b"), T("="), T("]")>>, FALSE)}
C_ReplMany == C_Repl \cup {
    Chunk("c", "//=", <<Id("a"), T("//"), Id("b")>>, <<"a", "b">>, "other", <<>>), Chunk("$s", "/=", <<Id("$t")>>, <<>>, "$t", <<>>),
    One("d", <<Txt(":tree a"), Rem("")>>, "other"), Rng("r", "..", Id("a"), Num("5"), "a", "int", <<"a">>), One("a", <<Num("1")>>, "int"), Rng("r", "...", Id("b"), Float("0.5"), "b", "float", <<"b">>),
    Chunk("e", "=", <<T("{"), Id("a"), T("=>"), Id("e"), T(","), T("?"), Id("d"), T(":"), Id("f"), T("}")>>, <<"a", "e", "f">>, "other", <<>>),
    Chunk("d", "=", <<T("tstr"), T(".size"), Id("n")>>, <<"n">>, "other", <<>>), Chunk("n", "=", <<T("~"), Id("d")>>, <<"d">>, "other", <<>>),
    Bad(<<Id("d"), T("="), OpenText>>, FALSE), Bad(<<Id("e"), Ill("!")>>, FALSE), Bad(<<T("="), T("tstr")>>, FALSE), Bad(<<Id("d"), T("="), T("["), Id("a"), T("}")>>, FALSE),
    Bad(<<Id("tree")>>, FALSE), Bad(<<Id("exit"), T(":")>>, FALSE)}

\* what could go on into the rule beside it
Lone(c) == c.bad /\ Len(c.toks) <= 2

VARIABLES items, pv, ended
rvars == <<lines, items, pv, ended>>
RInit == lines = <<>> /\ items = <<>> /\ pv = FALSE /\ ended = FALSE
\* nothing fits behind a comment or an open text
Closed(l) == LET t == l[Len(l)].toks[Len(l[Len(l)].toks)] IN t.k = "COMMENT" \/ t.ok = {"open"}
Type == /\ ~ ended /\ Len(items) < MaxItems /\ Total < MaxRules
        /\ \E c \in Chunks :
             /\ lines' = Append(lines, <<c>>)
             /\ items' = Append(items, [c |-> "src", n |-> Len(lines) + 1, pv |-> pv, text |-> "", names |-> <<>>])
        /\ UNCHANGED <<pv, ended>>
More == /\ ~ ended /\ items # <<>> /\ items[Len(items)].c = "src" /\ Total < MaxRules /\ ~ Closed(lines[Len(lines)]) /\ ~ Lone(lines[Len(lines)][1]) /\ Len(lines[Len(lines)]) < 3
        /\ \E c \in {d \in Chunks : ~ Lone(d)} : lines' = [lines EXCEPT ![Len(lines)] = Append(@, c)]
        /\ UNCHANGED <<items, pv, ended>>
Command == /\ ~ ended /\ Len(items) < MaxItems
           /\ \E c \in Cmds :
                /\ items' = Append(items, [c |-> c.c, n |-> Len(lines), pv |-> pv, text |-> c.text, names |-> c.names])
                /\ pv' = (pv # (c.c = "pv")) /\ ended' = (c.c = "exit")
           /\ UNCHANGED lines
RNext == Type \/ More \/ Command
RSpec == RInit /\ [][RNext]_rvars

Results0 == Results(lines, NoEnv)
EnvAfter(r, n) == IF n = 0 THEN NoEnv ELSE r[n].env
\* what a command about a name finds: the line that defined it
DefLine(r, n, x) == LET S == {j \in 1..n : x \in DOMAIN r[j].env} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k

\* the listing is on after an odd number of toggles
Inv_Listing == \A j \in 1..Len(items) : items[j].pv = (Cardinality({k \in 1..j - 1 : items[k].c = "pv"}) % 2 = 1)
\* nothing comes after the end, and every source was typed before it
Inv_End == ended => items[Len(items)].c = "exit" /\ \A j \in 1..Len(items) - 1 : items[j].c # "exit"
\* a session without its commands defines the same
Inv_Sources == Len(SelectSeq(items, LAMBDA x : x.c = "src")) = Len(lines)
\* when every faulty rule is alone on its line, exactly the rules without faults are accepted, and none is lost later
\* (a rule whose text is not closed is read and diagnosed, it is not among them)
Lonely == (\A n \in 1..Len(lines) : \A j \in 1..Len(lines[n]) : OpenText \notin {lines[n][j].toks[k] : k \in 1..Len(lines[n][j].toks)}) /\ \A n \in 1..Len(lines) : Len(lines[n]) > 1 => \A j \in 1..Len(lines[n]) : ~ Fails(lines[n][j])
Inv_Accepted == Lonely => LET r == Results0 IN \A n \in 1..Len(lines) :
    /\ DOMAIN r[n].env = {c.name : c \in {d \in {Before(n)[j] : j \in 1..Len(Before(n))} : ~ Fails(d)}}
    /\ n > 1 => \A x \in DOMAIN r[n - 1].env : x \in DOMAIN r[n].env /\ r[n].env[x] = r[n - 1].env[x]

Rule(n) == <<Text(Kids(n)[1]), Kind(Kids(n)[2])>>
ItemJson(r, x) ==
    IF x.c = "src" THEN LET f == r[x.n] IN
        [c |-> "src", pv |-> x.pv, toks |-> LET t == Toks(lines[x.n]) IN [i \in 1..Len(t) |-> TokJson(t[i])],
         rules |-> LET rs == Rules(f.out) IN [i \in 1..Len(rs) |-> Rule(rs[i])],
         diags |-> [i \in 1..Len(f.diags) |-> <<f.diags[i][2], IF f.diags[i][1] <= Len(Toks(lines[x.n])) THEN Toks(lines[x.n])[f.diags[i][1]].v ELSE "">>]]
    ELSE [c |-> x.c, text |-> x.text, names |-> SelectSeq([i \in 1..Len(x.names) |-> <<x.names[i], DefLine(r, x.n, x.names[i])>>], LAMBDA d : d[2] > 0)]
\* each line is numbered by the sources alone
Session == LET r == Results0 IN PrintT("CASE " \o ToJson([items |-> [i \in 1..Len(items) |-> ItemJson(r, items[i])]]))
REmitted == (Len(items) = MaxItems \/ ended) => Session
=============================================================================
