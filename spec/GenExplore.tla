----------------------------- MODULE GenExplore -----------------------------
(***************************************************************************)
(* All small sources for the code generator, grown rule by rule, and all   *)
(* small names; each is printed with the declarations it has to give.      *)
(***************************************************************************)
EXTENDS CddlGen, ParseCases
CONSTANTS Mode,        \* "rules" or "names"
          MaxRules, MaxGrow, Leafs, NameChars, MaxName

N(kind, v, kids) == <<kind, 0, v, kids>>
Leaf(kind, v) == N(kind, v, <<>>)
IdN(x) == Leaf("id", x)
TypeN(k) == Leaf("type", k)
Rule(name, v) == N("rule", "", <<IdN(name), v>>)
Entry(k, v) == N("entry", "", <<k, v>>)

Pool == <<"alpha", "my-type", "x_y.z", "Deep2name", "HTTPcode", "@last">>
Types == {TypeN(k) : k \in {"text", "tstr", "bool", "uint", "int", "nint", "bytes", "bstr", "float", "float16", "float32", "float64", "null", "nil"}}
Literals == {Leaf("int", x) : x \in {"0", "42", "0x1F", "0b101", "0o17", "9223372036854775807"}}
       \cup {Leaf("float", x) : x \in {"0.0", "1.5", "100000000000000000000000.0", "0.0000001", "16777217.0"}}
       \cup {Leaf("text", x) : x \in {"", "two words", "a;b", "back\\slash", "per%cent `tick`", "//no comment"}}
       \cup {Leaf("bool", x) : x \in {"true", "false"}}
G_All == Types \cup Literals
G_Few == {TypeN("tstr"), TypeN("null"), TypeN("bytes"), Leaf("int", "7")}
G_Tiny == {TypeN("int")}

Keys == <<IdN("k"), Leaf("intkey", "3"), IdN("my-key"), IdN("x1y"), Leaf("intkey", "16"), IdN("a.b_c"), IdN("type")>>

VARIABLES rules, grown, name
vars == <<rules, grown, name>>

TypeNames == {GT(GC(rules[i])[1]) : i \in {j \in 1..Len(rules) : GK(GC(rules[j])[2]) \notin LiteralKinds}}
LastV == GC(rules[Len(rules)])[2]
SetLast(v) == [rules EXCEPT ![Len(rules)] = Rule(GT(GC(rules[Len(rules)])[1]), v)]

AddRule == /\ Len(rules) < MaxRules
           /\ \E v \in Leafs \cup {IdN(x) : x \in TypeNames} \cup {N("group", "", <<>>), N("array", "", <<>>)} :
                rules' = Append(rules, Rule(Pool[Len(rules) + 1], v))
           /\ UNCHANGED <<grown, name>>
\* the value becomes a member of a group or an array
Wrap == /\ rules # <<>> /\ grown < MaxGrow /\ GK(LastV) \notin LiteralKinds
        /\ \E k \in {"group", "array"} :
             \/ rules' = SetLast(N(k, "", <<Entry(Keys[1], LastV)>>))
             \/ rules' = SetLast(N(k, "", <<Entry(Keys[3], TypeN("bool")), Entry(Keys[2], LastV), Entry(Keys[4], TypeN("float"))>>))
        /\ grown' = grown + 1 /\ UNCHANGED name
\* the group or array gets one more member
Member == /\ rules # <<>> /\ grown < MaxGrow /\ GK(LastV) \in {"group", "array"} /\ Len(GC(LastV)) < Len(Keys)
          /\ \E v \in (Leafs \cap Types) \cup {IdN(x) : x \in TypeNames \ {GT(GC(rules[Len(rules)])[1])}} :
               LET used == {GC(GC(LastV)[i])[1] : i \in 1..Len(GC(LastV))}
                   k == CHOOSE i \in 1..Len(Keys) : Keys[i] \notin used /\ \A j \in 1..i - 1 : Keys[j] \in used IN
               rules' = SetLast(N(GK(LastV), "", Append(GC(LastV), Entry(Keys[k], v))))
          /\ grown' = grown + 1 /\ UNCHANGED name
Spell == /\ Mode = "names" /\ Len(name) < MaxName
         /\ \E c \in NameChars : name' = name \o c
         /\ UNCHANGED <<rules, grown>>

Init == rules = <<>> /\ grown = 0 /\ name = ""
Next == IF Mode = "names" THEN Spell ELSE AddRule \/ Wrap \/ Member
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* names, independently of how they are built up: no separator is left, nothing but the case of
\* letters and the separators changes, and every word starts with a capital
NC_All == {"a", "b", "B", "C", "1", "-", "_", ".", "@"}
Kept(n) == SelectSeq([i \in 1..Len(n) |-> SubSeq(n, i, i)], LAMBDA c : IsAlpha(c) \/ IsNum(c))
Inv_Camel ==
    name # "" =>
      LET out == Camel(name)  kept == Kept(name) IN
      /\ Len(out) = Len(kept)
      /\ \A i \in 1..Len(kept) : ToLower(SubSeq(out, i, i)) = ToLower(kept[i])
      /\ \A i \in 1..Len(name) : LET c == SubSeq(name, i, i)  before == IF i = 1 THEN "_" ELSE SubSeq(name, i - 1, i - 1)
                                     at == Len(Kept(SubSeq(name, 1, i))) IN
            IsAlpha(c) => /\ (~ IsAlpha(before) /\ before # "@" => IsCap(SubSeq(out, at, at)))
                          /\ (c \in Lowers /\ IsAlpha(before) => ~ IsCap(SubSeq(out, at, at)))

\* declarations, independently of how they are built up
Decls == Declarations(rules)
RECURSIVE Leaves(_)
Leaves(t) == CASE t[1] = "struct" -> FoldLeft(LAMBDA a, f : a + Leaves(f[2]), 0, t[3]) [] OTHER -> 1
RECURSIVE Values(_)
Values(n) == IF GK(n) \in {"group", "array"} THEN FoldLeft(LAMBDA a, m : a + Values(GC(m)[2]), 0, GC(n))
             ELSE IF GK(n) = "type" /\ GT(n) \in {"null", "nil"} THEN 0 ELSE 1
RECURSIVE Named(_)
Named(t) == CASE t[1] = "struct" -> UNION {Named(t[3][i][2]) : i \in 1..Len(t[3])} [] t[1] = "named" -> {t[2]} [] OTHER -> {}
Inv_Decls ==
    /\ InDomain(rules)
    /\ Len(Decls) = Len(rules)
    /\ Distinct([i \in 1..Len(Decls) |-> Decls[i][2]])
    /\ \A i \in 1..Len(Decls) :
         LET v == GC(rules[i])[2] IN
         /\ (Decls[i][1] = "var" <=> GK(v) \in LiteralKinds)
         /\ (Decls[i][1] = "type" => /\ Leaves(Decls[i][3]) = Values(v)
                                     \* every name used is declared as a type
                                     /\ \A x \in Named(Decls[i][3]) : \E j \in 1..Len(Decls) : Decls[j][1] = "type" /\ Decls[j][2] = x)

RECURSIVE WriteG(_), WriteMembers(_)
WriteG(n) ==
    CASE GK(n) = "id" -> <<Id(GT(n))>>
      [] GK(n) \in {"type", "bool"} -> <<T(GT(n))>>
      [] GK(n) = "intkey" /\ GT(n) = "16" -> <<Num("0x10")>>
      [] GK(n) \in {"int", "intkey"} -> <<Num(GT(n))>>
      [] GK(n) = "float" -> <<Float(GT(n))>>
      [] GK(n) = "text" -> <<Txt(GT(n))>>
      [] GK(n) = "entry" -> WriteG(GC(n)[1]) \o <<T(":")>> \o WriteG(GC(n)[2])
      [] GK(n) = "group" -> <<T("(")>> \o WriteMembers(GC(n)) \o <<T(")")>>
      [] GK(n) = "array" -> <<T("[")>> \o WriteMembers(GC(n)) \o <<T("]")>>
      [] GK(n) = "rule" -> WriteG(GC(n)[1]) \o <<T("=")>> \o WriteG(GC(n)[2])
WriteMembers(ms) == IF ms = <<>> THEN <<>> ELSE WriteG(ms[1]) \o (IF Len(ms) > 1 THEN <<T(",")>> ELSE <<>>) \o WriteMembers(Tail(ms))

Flat(trees) == FoldLeft(LAMBDA a, n : a \o WriteG(n), <<>>, trees)
PrintGen(trees) == LET ts == Flat(trees) IN
    PrintT("CASE " \o ToJson([toks |-> [i \in 1..Len(ts) |-> TokJson(ts[i])], decls |-> Declarations(trees)]))
\* in the order grown and backwards
Backwards == [i \in 1..Len(rules) |-> rules[Len(rules) + 1 - i]]
Emitted ==
    IF Mode = "names"
    THEN GoName(name) /\ SubSeq(name, 1, 1) \notin {"1", "-", "."} => PrintGen(<<Rule(name, TypeN("int")), Rule("other", N("group", "", <<Entry(IdN(name), IdN(name)), Entry(IdN("z"), TypeN("bool"))>>))>>)
    ELSE /\ PrintGen(rules)
         /\ (Len(rules) > 1 => PrintGen(Backwards))
=============================================================================
