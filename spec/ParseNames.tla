----------------------------- MODULE ParseNames -----------------------------
(***************************************************************************)
(* Sessions: sequences of sources parsed one after the other with the same *)
(* environment, built from whole rules, well-formed or faulty.  What names *)
(* are undefined, which definition counts, what ranges are between and how *)
(* much a faulty rule takes with it are stated here on the rules alone,    *)
(* and checked to be what the parser machine arrives at token by token.    *)
(***************************************************************************)
EXTENDS ParseCases
CONSTANTS Chunks, MaxRules, MaxLines

(***************************************************************************)
(* A chunk: toks its tokens, name and op of the rule, uses the names used  *)
(* in order, val what the name stands for ("int", "float", "other" or      *)
(* another name), rng the ranges as <<from, to>> of the same form, bad     *)
(* whether it is faulty, eats whether it can take the next token with it.  *)
(***************************************************************************)
Chunk(name, op, toks, uses, val, rng) ==
    [toks |-> <<Id(name), T(op)>> \o toks, name |-> name, op |-> op, uses |-> uses, val |-> val, rng |-> rng,
     bad |-> FALSE, eats |-> FALSE]
Bad(toks, eats) == [toks |-> toks, name |-> "", op |-> "", uses |-> <<>>, val |-> "", rng |-> <<>>, bad |-> TRUE, eats |-> eats]

One(name, toks, val) == Chunk(name, "=", toks, <<>>, val, <<>>)
Alias(name, x) == Chunk(name, "=", <<Id(x)>>, <<x>>, x, <<>>)
Rng(name, op, a, b, ka, kb, uses) == Chunk(name, "=", <<a, T(op), b>>, uses, "other", <<<<ka, kb>>>>)

C_Names == {
    One("a", <<T("int")>>, "other"), Alias("a", "b"), Alias("b", "a"), One("b", <<Num("7")>>, "int"),
    Chunk("a", "/=", <<Id("c")>>, <<"c">>, "c", <<>>),
    Chunk("b", "//=", <<T("["), Id("b"), T("]")>>, <<"b">>, "other", <<>>),
    Chunk("c", "=", <<T("("), Id("a"), T(":"), Id("b"), T(","), Id("d"), T(":"), T("int"), Id("d"), T(")")>>, <<"b", "d">>, "other", <<>>),
    One("c", <<Txt("a")>>, "other"),
    Chunk("$s", "//=", <<Id("a"), T("//"), Id("$s")>>, <<"a">>, "other", <<>>),
    Chunk("d", "=", <<T("~"), Id("$$t"), T("/"), T("&"), Id("c")>>, <<"c">>, "other", <<>>)}
\* a use in every place
C_Uses == {
    One("a", <<T("int")>>, "other"),
    Chunk("p", "=", <<T("["), Id("a"), T("/"), Id("b"), T(","), T("?"), Id("a"), T(","), T("+"), Id("b"), T("]")>>, <<"a", "b", "a", "b">>, "other", <<>>),
    Chunk("q", "=", <<T("{"), Id("k"), T("=>"), Id("a"), T(","), Num("1"), T("=>"), Id("b"), T(","), Id("a"), T(":"), T("bool"), T("}")>>, <<"k", "a", "b">>, "other", <<>>),
    Chunk("r", "=", <<T("#"), Float("6.1"), T("("), Id("b"), T(")")>>, <<"b">>, "other", <<>>),
    Chunk("s", "=", <<T("tstr"), T(".size"), Id("n")>>, <<"n">>, "other", <<>>),
    Chunk("t", "=", <<T("int"), T(".lt"), Id("n"), T("/"), T("tstr"), T(".regexp"), Id("a"), T("/"), T("bytes"), T(".bits"), Id("b")>>, <<"n", "a", "b">>, "other", <<>>),
    Chunk("u", "=", <<Num("1"), T("*"), Num("2"), Id("a"), T("//"), Id("b"), T(":"), Id("b")>>, <<"a", "b">>, "other", <<>>),
    Chunk("v", "=", <<T("("), T("?"), Id("b"), T(":"), Id("a"), T(")"), Rem(" c")>>, <<"a">>, "other", <<>>),
    Chunk("n", "/=", <<Id("n")>>, <<"n">>, "n", <<>>),
    Chunk("b", "//=", <<T("~"), Id("b"), T(","), RemLn(" b")>>, <<"b">>, "other", <<>>)}
C_Ranges == {
    One("a", <<Num("1")>>, "int"), One("a", <<Float("1.5")>>, "float"), One("b", <<Num("0x10")>>, "int"),
    One("b", <<T("tstr")>>, "other"), Alias("a", "b"), Alias("b", "c"), Alias("c", "a"), One("c", <<Float("2.5")>>, "float"),
    Rng("d", "..", Id("a"), Id("b"), "a", "b", <<"a", "b">>), Rng("d", "...", Id("a"), Num("5"), "a", "int", <<"a">>),
    Rng("e", "..", Float("0.5"), Id("b"), "float", "b", <<"b">>), Rng("a", "..", Num("3"), Id("c"), "int", "c", <<"c">>)}
C_RangesFew == {
    One("a", <<Num("1")>>, "int"), One("b", <<Float("1.5")>>, "float"), One("b", <<T("uint"), T(".lt"), Num("3")>>, "other"),
    Alias("a", "b"), Alias("b", "c"), One("c", <<Num("7")>>, "int"),
    Chunk("d", "=", <<T("["), Id("a"), T(".."), Id("b"), T("/"), Id("c"), T("..."), Float("9.5"), T("]")>>, <<"a", "b", "c">>, "other",
          <<<<"a", "b">>, <<"c", "float">>>>),
    Chunk("c", "//=", <<Num("2"), T("..."), Id("c")>>, <<"c">>, "other", <<<<"int", "c">>>>)}
C_Kinds == { \* what a name may stand for
    One("a", <<Num("1")>>, "int"), One("a", <<Float("1.5")>>, "float"), One("a", <<Txt("1")>>, "other"), One("a", <<T("int")>>, "other"),
    One("a", <<T("true")>>, "other"), One("a", <<T("("), Num("1"), T(")")>>, "other"), One("a", <<Num("1"), T("/"), Num("2")>>, "other"),
    One("a", <<Num("1"), T(".."), Num("2")>>, "other"), One("a", <<T("["), T("]")>>, "other"), One("a", <<T("#"), Num("6")>>, "other"),
    Chunk("a", "=", <<T("&"), Id("x")>>, <<"x">>, "other", <<>>), Chunk("a", "=", <<T("~"), Id("x")>>, <<"x">>, "other", <<>>),
    One("a", <<T("?"), Num("1")>>, "other"), One("a", <<T("*"), T("bool")>>, "other"), One("a", <<T("{"), T("}")>>, "other"),
    Alias("a", "a"), Alias("a", "x"), One("x", <<Num("0")>>, "int"), Alias("x", "a"),
    Rng("r", "..", Id("a"), Num("5"), "a", "int", <<"a">>), Rng("r", "...", Float("1.5"), Id("a"), "float", "a", <<"a">>),
    Rng("r", "..", Id("x"), Id("a"), "x", "a", <<"x", "a">>)}
\* ends of many values
RVals == {<<Num("0"), "int">>, <<Num("0x0"), "int">>, <<Num("1"), "int">>, <<Num("300"), "int">>, <<Num("9223372036854775807"), "int">>,
          <<Float("0.0"), "float">>, <<Float("0.5"), "float">>, <<Float("1.0"), "float">>, <<Float("300.25"), "float">>}
RFew == {<<Num("0"), "int">>, <<Num("7"), "int">>, <<Float("0.0"), "float">>}
C_RangeValues ==
       {Rng("r", "..", v[1], w[1], v[2], w[2], <<>>) : v \in RVals, w \in RVals}
  \cup {Rng("s", "...", v[1], w[1], v[2], w[2], <<>>) : v \in RFew, w \in RFew}
  \cup {One("a", <<v[1]>>, v[2]) : v \in RVals} \cup {Alias("b", "a")}
  \cup {Rng("t", "..", Id("a"), v[1], "a", v[2], <<"a">>) : v \in RVals} \cup {Rng("u", "...", v[1], Id("a"), v[2], "a", <<"a">>) : v \in RVals}
  \cup {Rng("t", "...", Id("b"), v[1], "b", v[2], <<"b">>) : v \in RVals} \cup {Rng("u", "..", v[1], Id("b"), v[2], "b", <<"b">>) : v \in RVals}
C_RangeEnds ==
       {One("a", <<v[1]>>, v[2]) : v \in RVals} \cup {Alias("b", "a")}
  \cup {Rng("t", "..", Id("a"), v[1], "a", v[2], <<"a">>) : v \in RVals} \cup {Rng("u", "...", v[1], Id("b"), v[2], "b", <<"b">>) : v \in RVals}
C_Faulty == {
    One("a", <<T("int")>>, "other"), Alias("b", "a"), Chunk("c", "=", <<Id("u"), T(".."), Num("3")>>, <<"u">>, "other", <<<<"u", "int">>>>),
    One("u", <<Float("1.5")>>, "float"), One("d", <<T("["), Id("k"), T(":"), T("int"), T(","), Rem(" c"), T("]")>>, "other"),
    Bad(<<T("=")>>, FALSE), Bad(<<Id("a"), T("="), T(")")>>, FALSE), Bad(<<Id("e"), T("tstr")>>, FALSE),
    Bad(<<Id("e"), T("="), T("["), T("int"), T("}")>>, FALSE), Bad(<<Id("e"), T("="), Ill("!")>>, FALSE),
    Bad(<<T("tstr")>>, FALSE), Bad(<<Id("e"), T("="), OpenText, T("/"), T("]")>>, FALSE),
    Bad(<<Id("e"), T("="), Num("1"), T(".."), T("tstr")>>, FALSE), Bad(<<Id("e"), T("="), T("bool"), T(".size")>>, FALSE)}
\* rules that can stand any number of times in a source
C_Extends == {
    Chunk("a", "/=", <<T("int")>>, <<>>, "other", <<>>), Chunk("a", "/=", <<Id("a"), T("/"), Txt("t")>>, <<"a">>, "other", <<>>),
    Chunk("a", "//=", <<T("("), Id("k"), T(":"), Id("a"), T(","), Rem(" c"), T("?"), Num("1"), T(":"), T("bool"), T(")")>>, <<"a">>, "other", <<>>),
    Chunk("a", "//=", <<T("{"), Id("k"), T(":"), T("tstr"), T(".size"), Num("7"), Id("l"), T(":"), T("["), T("*"), Id("a"), T("]"), T("}"), RemLn(" d")>>, <<"a">>, "other", <<>>),
    Chunk("a", "/=", <<T("&"), T("("), Id("k"), T(":"), Num("1"), T(")"), T("/"), T("~"), Id("a"), Rem(" e")>>, <<"a">>, "other", <<>>),
    Chunk("a", "/=", <<Num("1"), T(".."), Num("9"), T("/"), T("#"), Float("6.32"), T("("), T("tstr"), T(")")>>, <<>>, "other", <<<<"int", "int">>>>),
    Chunk("a", "/=", <<T("tstr"), T(".regexp"), Txt("[a-z]"), T("//"), T("uint"), T(".lt"), Num("5")>>, <<>>, "other", <<>>)}
\* deep rules, complete and not
Opens == <<"[", "(", "{", "?", "~", "&">>
Opening(n) == [j \in 1..n |-> T(Opens[1 + (j % 6)])]
Closes(k) == IF k = "[" THEN "]" ELSE IF k = "(" THEN ")" ELSE "}"
Closing(n) == LET o == Opening(n)
                  c == SelectSeq([j \in 1..n |-> o[n + 1 - j].k], LAMBDA k : k \in {"[", "(", "{"})
              IN [j \in 1..Len(c) |-> T(Closes(c[j]))]
C_Deep == {
    One("d", Opening(90) \o <<T("int")>> \o Closing(90), "other"), Chunk("d", "/=", Opening(60) \o <<Id("d")>> \o Closing(60), <<"d">>, "other", <<>>),
    Bad(<<Id("e"), T("=")>> \o Opening(90) \o <<T("int"), T("=")>>, FALSE), Bad(<<Id("e"), T("=")>> \o Opening(80) \o <<T(".size")>>, FALSE),
    Bad(<<Id("e"), T("=")>> \o Opening(72) \o <<T("int")>> \o SubSeq(Closing(72), 1, 30) \o <<Ill("!")>>, FALSE)}
C_FaultyFew == {
    One("a", <<T("int")>>, "other"), Alias("b", "c"), One("c", <<T("("), T("bool"), T(")"), Rem(" x")>>, "other"),
    Bad(<<Id("a"), T("="), T(")")>>, FALSE), Bad(<<Id("e"), T("="), T("["), T("int"), T("}")>>, FALSE), Bad(<<Ill("!"), RemLn(" y")>>, FALSE)}

-----------------------------------------------------------------------------
VARIABLES lines   \* the sources, each a sequence of chunks
vars == <<lines>>
Total == FoldLeft(LAMBDA n, l : n + Len(l), 0, lines)

Init == lines = <<<<>>>>
Next == \/ /\ Total < MaxRules
           /\ \E c \in Chunks : lines' = [lines EXCEPT ![Len(lines)] = Append(@, c)]
        \/ /\ Len(lines) < MaxLines /\ lines[Len(lines)] # <<>>
           /\ lines' = Append(lines, <<>>)
Spec == Init /\ [][Next]_vars

Toks(l) == FoldLeft(LAMBDA acc, c : acc \o c.toks, <<>>, l)
\* the machine: every source with the environment the one before left
RECURSIVE Results(_, _)
Results(ls, env) == IF ls = <<>> THEN <<>>
                    ELSE LET f == ParseIn(env, Toks(ls[1])) IN <<f>> \o Results(Tail(ls), f.env)
Res == Results(lines, NoEnv)

Emitted == lines[Len(lines)] # <<>> =>
              LET r == Res IN PrintCase([j \in 1..Len(lines) |-> Line(Toks(lines[j]), r[j])])

(***************************************************************************)
(* The same, from the rules                                                *)
(***************************************************************************)
Clean(l) == \A j \in 1..Len(l) : ~ l[j].bad
\* a range between literals of different kinds fails as it is read: its rule defines nothing
Mixed(c) == \E h \in 1..Len(c.rng) : {c.rng[h][1], c.rng[h][2]} = {"int", "float"}
AllClean == \A j \in 1..Len(lines) : Clean(lines[j])
Flat(ls) == FoldLeft(LAMBDA acc, l : acc \o l, <<>>, ls)
\* the chunk that defines a name after n lines; 0 if none
Before(n) == Flat(SubSeq(lines, 1, n))
FirstDef(cs, x) == LET S == {j \in 1..Len(cs) : cs[j].name = x} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
Defined(n, x) == FirstDef(Before(n), x) > 0
Socket(x) == SubSeq(x, 1, 1) = "$"

\* C10: the undefined uses of line n
Undefined(n) == SelectSeq(FoldLeft(LAMBDA acc, c : acc \o c.uses, <<>>, lines[n]), LAMBDA x : ~ Socket(x) /\ ~ Defined(n, x))
DiagNames(n, class) == LET f == Res[n]  ts == Toks(lines[n])
                           ds == SelectSeq(f.diags, LAMBDA d : d[2] = class) IN [j \in 1..Len(ds) |-> ts[ds[j][1]].v]
Inv_Undefined == AllClean => \A n \in 1..Len(lines) : DiagNames(n, "undef") = Undefined(n)
Reversed(l) == [j \in 1..Len(l) |-> l[Len(l) + 1 - j]]
SortedBy(s) == SortSeq(s, LAMBDA x, y : x[1] < y[1])
\* C10: the order of rules does not matter
Bag(s) == [x \in {s[j] : j \in 1..Len(s)} |-> Cardinality({j \in 1..Len(s) : s[j] = x})]
Inv_Order == (AllClean /\ Len(lines) = 1) =>
    LET r == Parse(Toks(Reversed(lines[1])))
        rt == Toks(Reversed(lines[1]))
        rd == SelectSeq(r.diags, LAMBDA d : d[2] = "undef")
    IN Bag([j \in 1..Len(rd) |-> rt[rd[j][1]].v]) = Bag(DiagNames(1, "undef"))

\* C10, C11: what a source says does not depend on how its names are spelled
Spelled(x) == CASE x = "a" -> "b" [] x = "b" -> "a" [] OTHER -> x \o "."
RECURSIVE SpelledNode(_)
SpelledNode(n) == <<n[1], n[2], IF Kind(n) = "id" THEN Spelled(Text(n)) ELSE n[3], [j \in 1..Len(n[4]) |-> SpelledNode(n[4][j])]>>
Inv_Spelling == Len(lines) = 1 =>
    LET ts == Toks(lines[1])
        f == Res[1]
        g == Parse([j \in 1..Len(ts) |-> IF ts[j].k = "IDENT" THEN [ts[j] EXCEPT !.v = Spelled(@)] ELSE ts[j]])
    IN /\ g.out = [j \in 1..Len(f.out) |-> SpelledNode(f.out[j])]
       /\ g.diags = f.diags
       /\ DOMAIN g.env = {Spelled(x) : x \in DOMAIN f.env}
       /\ \A x \in DOMAIN f.env : g.env[Spelled(x)] = SpelledNode(f.env[x])

\* C11: redefinitions, and the definition that counts
DupNames(n) == LET cs == Before(n)  m == Len(Before(n - 1)) IN
    SelectSeq([j \in 1..Len(lines[n]) |-> IF cs[m + j].op = "=" /\ FirstDef(cs, cs[m + j].name) < m + j THEN cs[m + j].name ELSE ""],
              LAMBDA x : x # "")
Fails(c) == c.bad \/ Mixed(c)
Inv_FirstWins == (AllClean /\ \A n \in 1..Len(lines) : \A j \in 1..Len(lines[n]) : ~ Mixed(lines[n][j])) => \A n \in 1..Len(lines) :
    /\ DiagNames(n, "dup") = DupNames(n)
    /\ DOMAIN Res[n].env = {c.name : c \in {Before(n)[j] : j \in 1..Len(Before(n))}}
    \* the first definition, read alone, is what the environment holds
    /\ \A x \in DOMAIN Res[n].env :
          LET c == Before(n)[FirstDef(Before(n), x)]  alone == Parse(c.toks) IN
          <<Kind(alone.env[x]), Text(alone.env[x]), Len(Kids(alone.env[x]))>> =
          <<Kind(Res[n].env[x]), Text(Res[n].env[x]), Len(Kids(Res[n].env[x]))>>

\* C12: what a name stands for in the end
RECURSIVE Stands(_, _, _)
Stands(n, x, k) == IF x \in {"int", "float", "other"} THEN x
                   ELSE IF ~ Defined(n, x) THEN "undefined"
                   ELSE IF k = 0 THEN "other"
                   ELSE Stands(n, Before(n)[FirstDef(Before(n), x)].val, k - 1)
BadRange(n, r) == LET a == Stands(n, r[1], 10)  b == Stands(n, r[2], 10) IN
    \/ a = "other" \/ b = "other" \/ {a, b} = {"int", "float"}
RangeStart(l, j) == Len(Toks(SubSeq(l, 1, j - 1)))
Inv_Ranges == AllClean => \A n \in 1..Len(lines) : \A j \in 1..Len(lines[n]) :
    LET from == RangeStart(lines[n], j)  to == RangeStart(lines[n], j + 1)
        ds == {d \in {Res[n].diags[h] : h \in 1..Len(Res[n].diags)} : d[2] \in {"range-kind", "range-mixed", "range-end"} /\ d[1] > from /\ d[1] <= to}
    IN (ds # {}) = (\E h \in 1..Len(lines[n][j].rng) : BadRange(n, lines[n][j].rng[h]))

\* C22: what stands before a faulty rule is read as if the source ended there, and every rule
\* that does not follow a faulty one directly is read as it is alone
Syntax == {"name", "assign", "operand", "left", "right", "range-end", "tag", "number", "bound", "tag-number", "lex"}
FirstBad(l) == LET S == {j \in 1..Len(l) : l[j].bad} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
Rules(out) == SelectSeq(out, LAMBDA n : Kind(n) = "rule")
Inv_Prefix == \A n \in 1..Len(lines) :
    FirstBad(lines[n]) > 0 =>
      LET k == FirstBad(lines[n])
          e == IF n = 1 THEN NoEnv ELSE Res[n - 1].env
          p == ParseIn(e, Toks(SubSeq(lines[n], 1, k - 1)))
      IN /\ IsPrefix(Rules(p.out), Rules(Res[n].out))
         /\ \A x \in DOMAIN p.env : Res[n].env[x] = p.env[x]
         /\ \E d \in {Res[n].diags[h] : h \in 1..Len(Res[n].diags)} : d[2] \in Syntax
Inv_Resumes == \A n \in 1..Len(lines) : \A j \in 1..Len(lines[n]) :
    (~ Fails(lines[n][j]) /\ (j = 1 \/ ~ Fails(lines[n][j - 1]))) =>
       /\ \E h \in 1..Len(Res[n].out) : Kind(Res[n].out[h]) = "rule" /\ Start(Res[n].out[h]) = RangeStart(lines[n], j) + 1
       /\ lines[n][j].name \in DOMAIN Res[n].env
\* every syntax fault shows
Inv_EveryFault == \A n \in 1..Len(lines) : \A j \in 1..Len(lines[n]) :
    (lines[n][j].bad /\ (j = 1 \/ ~ lines[n][j - 1].bad)) =>
       \E h \in 1..Len(Res[n].diags) :
          /\ Res[n].diags[h][2] \in Syntax
          /\ Res[n].diags[h][1] > RangeStart(lines[n], j)
          /\ Res[n].diags[h][1] <= RangeStart(lines[n], j + 1) + 1
=============================================================================
