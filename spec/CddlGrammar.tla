----------------------------- MODULE CddlGrammar -----------------------------
(***************************************************************************)
(* The well-formed sources, top down: which constructs may stand where and *)
(* how a tree is written.  Independent of the parser machine; TLC checks   *)
(* that the machine reads every printed tree back as that tree without     *)
(* diagnostics (Inv_RoundTrip), and prints the cases for the               *)
(* implementation.                                                         *)
(*                                                                         *)
(* Trees are grown bottom up: a state is a tree of one rule's value, a     *)
(* step puts it into any slot of any construct that admits it.             *)
(***************************************************************************)
EXTENDS ParseCases
CONSTANTS MaxWrap, Leafs, Wrapping, MaxList

N(kind, v, kids) == <<kind, 0, v, kids>>
Leaf(kind, v) == N(kind, v, <<>>)
IdN(x) == Leaf("id", x)
TypeN(k) == Leaf("type", k)
NumN(x) == Leaf("int", x)
FloatN(x) == Leaf("float", x)
TextN(x) == Leaf("text", x)

\* the binding strength of the outermost construct
Level(n) == CASE Kind(n) = "choice" /\ Text(n) = "//" -> 2
              [] Kind(n) \in {"opt", "occ"} -> 4
              [] Kind(n) = "entry" -> 5
              [] Kind(n) = "choice" -> 6
              [] Kind(n) \in {"control", "range"} -> 7
              [] Kind(n) \in {"unwrap", "enum"} -> 8
              [] OTHER -> 9

(***************************************************************************)
(* Writing trees                                                           *)
(***************************************************************************)
OperandToken(n) ==
    CASE Kind(n) = "id" -> Id(Text(n))
      [] Kind(n) \in {"type", "bool"} -> T(Text(n))
      [] Kind(n) \in {"int", "intkey", "bound"} -> Num(Text(n))
      [] Kind(n) = "float" -> Float(Text(n))
      [] Kind(n) = "text" -> Txt(Text(n))

IsSub(n, S) == Kind(n) \in S
RECURSIVE Write(_), WriteList(_, _)
EndsInt(n) == IF Kind(n) = "choice" /\ Text(n) = "//" THEN Kind(Kids(n)[2]) = "int" ELSE Kind(n) = "int"
EndsBareTag(ts) == LET l == Len(ts) IN
    \/ ts[l].k = "#"
    \/ ts[l].k \in {"INT", "FLOAT"} /\ l > 1 /\ ts[l - 1].k = "#"
\* two members of a list that would run together
NeedsComma(a, b) ==
    LET pa == Write(a)  pb == Write(b) IN
    \/ EndsBareTag(pa) /\ pb[1].k \in {"(", "INT", "FLOAT"}
    \/ EndsInt(a) /\ pb[1].k = "*"

Write(n) ==
    LET k == Kids(n) IN
    CASE Kind(n) \in {"id", "type", "bool", "int", "intkey", "float", "text"} -> <<OperandToken(n)>>
      [] Kind(n) = "choice" -> Write(k[1]) \o <<T(Text(n))>> \o Write(k[2])
      [] Kind(n) = "opt" -> <<T("?")>> \o Write(k[1])
      [] Kind(n) = "occ" ->
           (IF Text(n) \in {"*", "*M"} /\ Text(k[1]) # "0" THEN <<OperandToken(k[1])>> ELSE <<>>)
           \o <<T(IF Text(n) = "+" THEN "+" ELSE "*")>>
           \o (IF Text(n) = "*M" THEN <<OperandToken(k[2])>> ELSE <<>>)
           \o Write(k[Len(k)])
      [] Kind(n) = "entry" -> Write(k[1]) \o <<T(IF Text(n) = "" THEN ":" ELSE "=>")>> \o Write(k[2])
      [] Kind(n) \in {"control", "range"} -> Write(k[1]) \o <<T(Text(n))>> \o Write(k[2])
      [] Kind(n) = "unwrap" -> <<T("~")>> \o Write(k[1])
      [] Kind(n) = "enum" -> <<T("&")>> \o Write(k[1])
      [] Kind(n) = "tag" ->
           <<T("#")>>
           \o (CASE Text(n) \in {"M", "MI"} -> <<Num(Text(k[1]))>>
                 [] Text(n) \in {"MN", "MNI"} -> <<Float(Text(k[1]))>>
                 [] OTHER -> <<>>)
           \o (IF Text(n) \in {"I", "MI", "MNI"} THEN <<T("(")>> \o Write(k[Len(k)]) \o <<T(")")>> ELSE <<>>)
      [] Kind(n) = "group" -> <<T("(")>> \o WriteList(k, Text(n)) \o <<T(")")>>
      [] Kind(n) = "array" -> <<T("[")>> \o WriteList(k, Text(n)) \o <<T("]")>>
      [] Kind(n) = "map" -> <<T("{")>> \o WriteList(k, Text(n)) \o <<T("}")>>

\* commas: "" only where needed, "," between all, ",," also after the last
WriteList(ms, style) ==
    IF ms = <<>> THEN <<>>
    ELSE IF Len(ms) = 1 THEN Write(ms[1]) \o (IF style = ",," THEN <<T(",")>> ELSE <<>>)
    ELSE Write(ms[1]) \o (IF style # "" \/ NeedsComma(ms[1], ms[2]) THEN <<T(",")>> ELSE <<>>)
         \o WriteList(Tail(ms), style)

(***************************************************************************)
(* Growing trees                                                           *)
(***************************************************************************)
\* names with definitions of the right kind
Defs == << <<Id("num"), T("="), Num("12")>>, <<Id("flo"), T("="), Float("2.5")>>,
           <<Id("typ"), T("="), T("tstr")>>, <<Id("grp"), T("="), T("("), Id("x"), T(":"), T("int"), T(")")>> >>
DefNodes == << N("rule", "", <<IdN("num"), NumN("12")>>), N("rule", "", <<IdN("flo"), FloatN("2.5")>>),
               N("rule", "", <<IdN("typ"), TypeN("tstr")>>),
               N("rule", "", <<IdN("grp"), N("group", "", <<N("entry", "", <<IdN("x"), TypeN("int")>>)>>)>>) >>

L_All == {TypeN(k) : k \in TypeKinds} \cup {Leaf("bool", k) : k \in BoolKinds}
     \cup {NumN("0"), NumN("42"), NumN("0x1F"), NumN("0b101"), NumN("0o17"), NumN("9223372036854775807"),
           FloatN("1.5"), FloatN("0.0"), FloatN("123.0625"), TextN(""), TextN("a b;c\\"),
           IdN("num"), IdN("flo"), IdN("typ"), IdN("grp"), IdN("$sock"), IdN("$$plug"), IdN("self")}
     \cup {N("group", "", <<>>), N("array", "", <<>>), N("map", "", <<>>), N("tag", "", <<>>),
           N("tag", "M", <<Leaf("major", "7")>>), N("tag", "MN", <<Leaf("major", "6.24"), Leaf("tagnum", "6.24")>>)}
L_Few == {TypeN("tstr"), TypeN("uint"), NumN("42"), FloatN("1.5"), TextN("t"), IdN("num"), IdN("typ"), N("tag", "M", <<Leaf("major", "7")>>)}
L_Tiny == {TypeN("tstr"), NumN("42"), IdN("typ")}
L_One == {IdN("typ")}
L_Hole == {IdN("self")}

\* numbers and texts of many values in every place one may stand
VI == {"0", "1", "2", "3", "7", "8", "9", "10", "15", "16", "31", "32", "63", "64", "65", "99", "100", "127", "128", "129", "200", "255",
       "256", "257", "300", "511", "512", "999", "1000", "1023", "1024", "4095", "4096", "9999", "10000", "32767", "32768", "65535", "65536",
       "99999", "100000", "1000000", "16777216", "16777217", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740991",
       "9007199254740993", "9223372036854775806", "9223372036854775807", "00", "007", "010", "0777", "0x0", "0x9", "0xf", "0xFF", "0xabcdef",
       "0xDeadBeef", "0x7fffffff", "0x80000000", "0x7fffffffffffffff", "0b0", "0b1", "0b10", "0b1111", "0b100000000", "0o0", "0o7", "0o10", "0o777"}
VU == VI \cup {"9223372036854775808", "18446744073709551615", "0xffffffffffffffff"}
VFew == {"0", "1", "9", "255", "256", "65536", "4294967296", "9223372036854775807", "18446744073709551615", "0x1F", "0b11", "0o17", "010"}
VR == VFew \ {"18446744073709551615"}
VF == {"0.0", "0.1", "0.5", "0.25", "0.001", "1.0", "1.10", "2.50", "9.75", "10.0", "00.5", "3.14159265358979", "123456789.987654321", "255.5",
       "65536.0", "4294967296.5", "16777217.0", "9007199254740993.0", "99999999999999999999.5", "0.000000000000000000001", "0.30000000000000004", "1.7976931348623157"}
VT == {"", " ", "a", "A", "0", "1.5", "int", "true", "a b", ";", "; c", "/=", "..", "\t", "\\", "\\n", "'", "`", "%d", "{", "$x", "é", "漢字", "name", "'a'"}
VTag == {"0.0", "0.1", "6.0", "6.1", "6.24", "6.32", "6.255", "6.256", "6.55799", "6.65536", "6.4294967296", "6.9223372036854775808",
         "6.18446744073709551615", "7.25", "1.4", "9.9", "255.300", "256.1", "65536.65536", "18446744073709551615.1"}
In(n) == {n, N("group", "", <<n>>), N("array", ",", <<n, n>>), N("map", "", <<N("entry", "=>", <<IdN("typ"), n>>)>>),
          N("entry", "", <<IdN("k"), n>>), N("choice", "/", <<n, TypeN("bool")>>), N("choice", "/", <<TypeN("bool"), n>>)}
L_Values ==
       UNION {In(NumN(v)) : v \in VI} \cup UNION {In(FloatN(v)) : v \in VF} \cup UNION {In(TextN(v)) : v \in VT}
  \cup {N("group", ",", <<N("entry", a, <<Leaf("intkey", v), TypeN("int")>>), N("entry", "", <<IdN("j"), TypeN("int")>>)>>) : v \in VI, a \in {"", "=>"}}
  \cup {N("entry", "", <<Leaf("intkey", v), TypeN("tstr")>>) : v \in VI}
  \cup {N("occ", "*", <<Leaf("bound", v), TypeN("int")>>) : v \in VI}
  \cup {N("occ", "*M", <<Leaf("bound", "0"), Leaf("bound", v), TypeN("int")>>) : v \in VU}
  \cup {N("array", "", <<N("occ", "*M", <<Leaf("bound", v), Leaf("bound", w), N("entry", "", <<IdN("k"), TypeN("int")>>)>>)>>) : v \in VR \ {"0"}, w \in VFew}
  \cup {N("group", "", <<N("occ", "*M", <<Leaf("bound", v), Leaf("bound", v), TypeN("bool")>>)>>) : v \in VI \ {"0"}}
  \cup {N("tag", "M", <<Leaf("major", v)>>) : v \in VU} \cup {N("tag", "MI", <<Leaf("major", v), TypeN("tstr")>>) : v \in VU}
  \cup {N("tag", "MN", <<Leaf("major", v), Leaf("tagnum", v)>>) : v \in VTag}
  \cup {N("tag", "MNI", <<Leaf("major", v), Leaf("tagnum", v), TypeN("tstr")>>) : v \in VTag}
  \cup {N("range", r, <<NumN(v), NumN(w)>>) : v \in VR, w \in VR, r \in RangeOps}
  \cup {N("range", "..", <<NumN("0"), NumN(v)>>) : v \in VI} \cup {N("range", "...", <<NumN(v), IdN("num")>>) : v \in VI}
  \cup {N("range", r, <<FloatN(v), FloatN("2.5")>>) : v \in VF, r \in RangeOps} \cup {N("range", r, <<IdN("flo"), FloatN(v)>>) : v \in VF, r \in RangeOps}
  \cup {N("control", ".size", <<TypeN(k), NumN(v)>>) : k \in {"tstr", "text", "bytes", "uint"}, v \in VI}
  \cup {N("control", c, <<TypeN("int"), NumN(v)>>) : c \in CompareOps, v \in VI}
  \cup {N("control", c, <<TypeN("float"), FloatN(v)>>) : c \in CompareOps, v \in VF}
  \cup {N("control", c, <<TypeN(k), n>>) : c \in CompareOps, k \in NumTypes, n \in {NumN("3"), FloatN("0.5"), IdN("num")}}
  \cup {N("control", ".regexp", <<TypeN(k), TextN(v)>>) : k \in {"tstr", "text"}, v \in VT}

I == TypeN("int")
First(n) == Write(n)[1].k
\* where n may stand: all trees with n in one slot, the other slots filled in plainly
Wraps(n) ==
    LET l == Level(n) IN
       {N(k, s, <<n>>) : k \in {"group", "array", "map"}, s \in {"", ",,"}}
  \cup {N("group", ",", <<N("entry", "", <<IdN("k"), I>>), n>>), N("array", "", <<TypeN("bool"), n, TypeN("text")>>),
        N("map", ",", <<n, N("entry", "", <<IdN("k"), I>>)>>)}
  \cup (IF l >= 3 THEN {N("choice", "//", <<n, IdN("grp")>>)} ELSE {})
  \cup (IF l >= 2 THEN {N("choice", "//", <<IdN("grp"), n>>), N("choice", "//", <<IdN("grp"), N("choice", "//", <<N("opt", "", <<I>>), I>>)>>)} ELSE {})
  \cup (IF l >= 5 THEN {N("opt", "", <<n>>), N("occ", "+", <<Leaf("bound", "1"), n>>),
                        N("occ", "*M", <<Leaf("bound", "0"), Leaf("bound", "3"), n>>),
                        N("occ", "*M", <<Leaf("bound", "2"), Leaf("bound", "5"), n>>)} ELSE {})
  \cup (IF l >= 5 /\ First(n) # "INT" THEN {N("occ", "*", <<Leaf("bound", "0"), n>>), N("occ", "*", <<Leaf("bound", "4"), n>>)} ELSE {})
  \cup (IF l >= 6 THEN {N("entry", "", <<IdN("k"), n>>), N("entry", "", <<Leaf("intkey", "3"), n>>),
                        N("entry", "=>", <<IdN("typ"), n>>), N("entry", "=>", <<Leaf("intkey", "4"), n>>)} ELSE {})
  \cup (IF l >= 7 THEN {N("choice", "/", <<n, TypeN("nil")>>)} ELSE {})
  \cup (IF l >= 6 THEN {N("choice", "/", <<TypeN("bool"), n>>),
                        N("tag", "I", <<n>>), N("tag", "MI", <<Leaf("major", "6"), n>>),
                        N("tag", "MNI", <<Leaf("major", "6.32"), Leaf("tagnum", "6.32"), n>>)} ELSE {})
  \cup (IF l >= 7 THEN {N("control", ".bits", <<n, IdN("grp")>>)} ELSE {})
  \cup (IF l >= 9 THEN {N("control", ".bits", <<TypeN("uint"), n>>)} ELSE {})
  \cup (IF l >= 9 /\ Kind(n) \in {"group", "id", "int"}
        THEN {N("control", ".size", <<TypeN(k), n>>) : k \in {"tstr", "text", "bytes", "uint"}} ELSE {})
  \cup (IF Kind(n) = "type" /\ Text(n) \in {"tstr", "text", "bytes", "uint"}
        THEN {N("control", ".size", <<n, NumN("8")>>)} ELSE {})
  \cup (IF Kind(n) = "type" /\ Text(n) \in {"tstr", "text"}
        THEN {N("control", ".regexp", <<n, TextN("[a-z]+")>>), N("control", ".regexp", <<n, IdN("typ")>>)} ELSE {})
  \cup (IF Kind(n) = "text" THEN {N("control", ".regexp", <<TypeN("tstr"), n>>)} ELSE {})
  \cup (IF Kind(n) = "type" /\ Text(n) \in NumTypes
        THEN {N("control", c, <<n, NumN("3")>>) : c \in CompareOps} \cup {N("control", ".lt", <<n, IdN("num")>>)} ELSE {})
  \cup (IF Kind(n) \in {"int", "float", "group"} \/ n = IdN("num") \/ n = IdN("flo")
        THEN {N("control", c, <<TypeN("float32"), n>>) : c \in CompareOps} ELSE {})
  \cup (IF Kind(n) = "int" \/ n = IdN("num")
        THEN {N("range", r, <<n, NumN("99")>>) : r \in RangeOps} \cup {N("range", r, <<NumN("1"), n>>) : r \in RangeOps}
             \cup {N("range", "..", <<n, IdN("num")>>), N("range", "...", <<IdN("num"), n>>)} ELSE {})
  \cup (IF Kind(n) = "float" \/ n = IdN("flo")
        THEN {N("range", r, <<n, FloatN("9.75")>>) : r \in RangeOps} \cup {N("range", "..", <<FloatN("0.5"), n>>), N("range", "...", <<n, IdN("flo")>>)} ELSE {})
  \cup (IF l >= 9 /\ Kind(n) \in {"id", "group"} THEN {N("unwrap", "", <<n>>), N("enum", "", <<n>>)} ELSE {})

\* one member of every form, for lists
Members == {I, NumN("5"), IdN("typ"), TextN("x"), N("entry", "", <<IdN("k"), I>>), N("entry", "", <<Leaf("intkey", "1"), NumN("7")>>),
            N("entry", "=>", <<IdN("typ"), I>>), N("opt", "", <<N("entry", "", <<IdN("o"), I>>)>>), N("opt", "", <<NumN("6")>>),
            N("occ", "*", <<Leaf("bound", "0"), IdN("typ")>>), N("occ", "+", <<Leaf("bound", "1"), I>>),
            N("occ", "*M", <<Leaf("bound", "2"), Leaf("bound", "3"), N("entry", "", <<IdN("m"), I>>)>>),
            N("occ", "*M", <<Leaf("bound", "0"), Leaf("bound", "3"), I>>), N("occ", "*", <<Leaf("bound", "1"), I>>),
            N("choice", "/", <<I, NumN("1")>>), N("choice", "//", <<IdN("grp"), NumN("1")>>),
            N("choice", "//", <<N("entry", "", <<IdN("k"), I>>), N("entry", "", <<IdN("j"), I>>)>>),
            N("group", "", <<I>>), N("array", ",", <<I, I>>), N("map", "", <<>>), N("tag", "", <<>>), N("tag", "M", <<Leaf("major", "6")>>),
            N("tag", "MNI", <<Leaf("major", "6.1"), Leaf("tagnum", "6.1"), I>>), N("unwrap", "", <<IdN("grp")>>), N("enum", "", <<IdN("grp")>>),
            N("range", "..", <<NumN("1"), NumN("9")>>), N("control", ".size", <<TypeN("tstr"), NumN("4")>>)}

VARIABLES tr, d
vars == <<tr, d>>

Init == /\ d = 0
        /\ IF Wrapping THEN tr \in Leafs
           ELSE \E k \in {"group", "array", "map"}, s \in {"", ",", ",,"}, m \in Members : tr = N(k, s, <<m>>)
Next == /\ d' = d + 1
        /\ IF Wrapping THEN d < MaxWrap /\ tr' \in Wraps(tr)
           ELSE /\ Len(Kids(tr)) < MaxList
                /\ \E m \in Members : tr' = N(Kind(tr), Text(tr), Append(Kids(tr), m))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a source with the tree as a rule, the names it uses defined before or after it
Before == d % 2 = 1
DefToks == Defs[1] \o Defs[2] \o Defs[3] \o Defs[4] \o <<Id("self"), T("="), T("bool")>>
DefTrees == DefNodes \o <<N("rule", "", <<IdN("self"), TypeN("bool")>>)>>
AssignOp == T(CASE Len(Write(tr)) % 5 = 1 -> "/=" [] Len(Write(tr)) % 5 = 3 -> "//=" [] OTHER -> "=")
RuleToks == <<Id("rule"), AssignOp>> \o Write(tr)
Source == IF Before THEN DefToks \o RuleToks ELSE RuleToks \o DefToks

\* how the tree looks in the syntax tree: lists do not show their commas, entries not their arrow
RECURSIVE Shown(_)
Shown(n) == <<Kind(n), 0, IF Kind(n) \in {"entry", "group", "array", "map", "rule"} THEN "" ELSE Text(n),
              [i \in 1..Len(Kids(n)) |-> Shown(Kids(n)[i])]>>
RuleTree == N("rule", "", <<IdN("rule"), Shown(tr)>>)
Trees == IF Before THEN DefTrees \o <<RuleTree>> ELSE <<RuleTree>> \o DefTrees

RECURSIVE Unplaced(_)
Unplaced(n) == <<Kind(n), 0, IF Kind(n) = "rule" THEN "" ELSE Text(n), [i \in 1..Len(Kids(n)) |-> Unplaced(Kids(n)[i])]>>
Read1 == Parse(Source)
Inv_RoundTrip == /\ Read1.diags = <<>>
                 /\ [i \in 1..Len(Read1.out) |-> Unplaced(Read1.out[i])] = Trees

Emitted == PrintT("CASE " \o ToJson([wf |-> TRUE,
             s |-> <<[toks |-> [i \in 1..Len(Source) |-> TokJson(Source[i])], out |-> Trees, diags |-> <<>>, env |-> <<>>]>>]))

\* long random growths: only the last tree
EmittedLast == d = MaxWrap => Inv_RoundTrip /\ Emitted

\* what can be put into its own hole, for deep nesting
RECURSIVE Subst(_, _)
Subst(n, x) == IF n = IdN("self") THEN x ELSE <<Kind(n), 0, Text(n), [i \in 1..Len(Kids(n)) |-> Subst(Kids(n)[i], x)]>>
ReadsBack(n) == LET r == Parse(<<Id("rule"), T("=")>> \o Write(n) \o DefToks) IN
                /\ r.diags = <<>>
                /\ [i \in 1..Len(r.out) |-> Unplaced(r.out[i])] = <<N("rule", "", <<IdN("rule"), Shown(n)>>)>> \o DefTrees
Twice == Subst(tr, tr)
HasHole == \E i \in 1..Len(Write(tr)) : Write(tr)[i] = Id("self")
EmittedPump == (d > 0 /\ HasHole /\ ReadsBack(Twice) /\ ReadsBack(Subst(tr, Twice))) =>
    PrintT("CASE " \o ToJson([unit |-> [i \in 1..Len(Write(tr)) |-> TokJson(Write(tr)[i])], tree |-> Shown(tr),
                               defs |-> [i \in 1..Len(DefToks) |-> TokJson(DefToks[i])], out |-> DefTrees]))

\* the same source with a comment in each gap, on the line of the token before it or on its own;
\* the rule comes last and first, so that every token of it has a neighbour
WithComment(ts, i, c) == SubSeq(ts, 1, i) \o <<c>> \o SubSeq(ts, i + 1, Len(ts))
Short == RuleToks \o <<Id("typ"), T("="), T("tstr")>>
EmittedComments ==
    \A i \in 0..Len(RuleToks) + 1 : \A c \in {Rem(" c"), RemLn("d ")} :
       LET ts == WithComment(Short, i, c)
           two == WithComment(ts, i + 1, RemLn(" second"))
       IN /\ (Feasible(SubSeq(ts, 1, i), c) => PrintCase(<<Line(ts, Parse(ts))>>))
          /\ (Feasible(SubSeq(ts, 1, i), c) /\ i % 2 = 0 => PrintCase(<<Line(two, Parse(two))>>))
=============================================================================
