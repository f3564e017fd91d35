------------------------------ MODULE CddlGen ------------------------------
(***************************************************************************)
(* What the code generator has to declare for a tree.  A tree node is      *)
(* <<kind, position, text, children>> as in CddlParse; a declaration is    *)
(* <<"var", name, kind, text>> or <<"type", name, type>>, a type           *)
(* <<"basic", name>>, <<"slice", type>>, <<"named", name>> or              *)
(* <<"struct", toarray, <<field...>>>> with fields <<name, type>>.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Functions, SequencesExt

GK(n) == n[1]
GT(n) == n[3]
GC(n) == n[4]

(***************************************************************************)
(* Names                                                                   *)
(***************************************************************************)
Lower == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Upper == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Lowers == Range(Lower)
Uppers == Range(Upper)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
UpperOf == [c \in Lowers |-> Upper[CHOOSE i \in 1..26 : Lower[i] = c]]
LowerOf == [c \in Uppers |-> Lower[CHOOSE i \in 1..26 : Upper[i] = c]]
ToUpper(c) == IF c \in Lowers THEN UpperOf[c] ELSE c
ToLower(c) == IF c \in Uppers THEN LowerOf[c] ELSE c
IsCap(c) == c \in Uppers
IsAlpha(c) == c \in Uppers \/ c \in Lowers
IsNum(c) == c \in Digits

\* Camel case, a character at a time. Words start after a separator or a digit and get a capital;
\* a capital directly after a capital is lowered; other characters are dropped.
CamelInit == [out |-> "", cap |-> TRUE, wascap |-> FALSE]
CamelStep(st, c) ==
    [out |-> st.out \o (IF IsAlpha(c) THEN (IF st.cap THEN ToUpper(c) ELSE IF st.wascap /\ IsCap(c) THEN ToLower(c) ELSE c)
                        ELSE IF IsNum(c) THEN c ELSE ""),
     cap |-> IF IsAlpha(c) THEN FALSE ELSE IsNum(c) \/ c \in {"_", "-", "."},
     wascap |-> IsCap(c)]
Camel(name) == FoldLeft(LAMBDA a, i : CamelStep(a, SubSeq(name, i, i)), CamelInit, [i \in 1..Len(name) |-> i]).out

\* the names the property speaks about: those whose camel case is a Go name
GoName(name) == LET c == Camel(name) IN c # "" /\ IsAlpha(SubSeq(c, 1, 1))

\* integer keys are the only names starting with a digit
KeyName(key) == IF IsNum(SubSeq(GT(key), 1, 1)) THEN "IntKey_" \o GT(key) ELSE Camel(GT(key))

(***************************************************************************)
(* Types and declarations                                                  *)
(***************************************************************************)
BasicOf == [text |-> "string", tstr |-> "string", bool |-> "bool", uint |-> "uint", int |-> "int", nint |-> "int",
            float16 |-> "float32", float32 |-> "float32", float64 |-> "float64", float |-> "float64"]
LiteralKinds == {"int", "float", "text", "bool"}

RECURSIVE GoType(_)
GoFields(ms) == [i \in 1..Len(ms) |-> <<KeyName(GC(ms[i])[1]), GoType(GC(ms[i])[2])>>]
GoType(n) ==
    CASE GK(n) = "type" /\ GT(n) \in DOMAIN BasicOf -> <<"basic", BasicOf[GT(n)]>>
      [] GK(n) = "type" /\ GT(n) \in {"bytes", "bstr"} -> <<"slice", <<"basic", "byte">>>>
      [] GK(n) = "type" /\ GT(n) \in {"null", "nil"} -> <<"struct", FALSE, <<>>>>
      [] GK(n) = "id" -> <<"named", Camel(GT(n))>>
      [] GK(n) \in {"group", "array"} -> <<"struct", GK(n) = "array", GoFields(GC(n))>>

Declare(rule) ==
    LET name == Camel(GT(GC(rule)[1]))  v == GC(rule)[2] IN
    IF GK(v) \in LiteralKinds THEN <<"var", name, GK(v), GT(v)>> ELSE <<"type", name, GoType(v)>>
Rules(trees) == SelectSeq(trees, LAMBDA n : GK(n) = "rule")
Declarations(trees) == LET rs == Rules(trees) IN [i \in 1..Len(rs) |-> Declare(rs[i])]

(***************************************************************************)
(* The sources the generator supports                                      *)
(***************************************************************************)
RECURSIVE Supported(_, _)
Distinct(seq) == Cardinality(Range(seq)) = Len(seq)
Supported(n, types) ==
    CASE GK(n) = "type" -> TRUE
      [] GK(n) = "id" -> GT(n) \in types
      [] GK(n) \in {"group", "array"} ->
           /\ \A i \in 1..Len(GC(n)) : LET m == GC(n)[i] IN
                /\ GK(m) = "entry"
                /\ (IsNum(SubSeq(GT(GC(m)[1]), 1, 1)) \/ GoName(GT(GC(m)[1])))
                /\ Supported(GC(m)[2], types)
           /\ Distinct([i \in 1..Len(GC(n)) |-> KeyName(GC(GC(n)[i])[1])])
      [] OTHER -> FALSE
RECURSIVE Refers(_)
Refers(n) == IF GK(n) = "id" THEN {GT(n)}
             ELSE IF GK(n) = "entry" THEN Refers(GC(n)[2])
             ELSE UNION {Refers(GC(n)[i]) : i \in 1..Len(GC(n))}
\* no rule contains itself: names can be taken away until none is left
RECURSIVE Peels(_, _)
Peels(names, refs) == \/ names = {}
                      \/ LET free == {x \in names : refs[x] \cap names = {}} IN free # {} /\ Peels(names \ free, refs)
InDomain(trees) ==
    LET rs == Rules(trees)
        names == [i \in 1..Len(rs) |-> GT(GC(rs[i])[1])]
        types == {names[i] : i \in {j \in 1..Len(rs) : GK(GC(rs[j])[2]) \notin LiteralKinds}} IN
    /\ \A i \in 1..Len(rs) : GoName(names[i]) /\ SubSeq(names[i], 1, 1) # "$"
    /\ Distinct([i \in 1..Len(rs) |-> Camel(names[i])])
    /\ \A i \in 1..Len(rs) : GK(GC(rs[i])[2]) \in LiteralKinds \/ Supported(GC(rs[i])[2], types)
    /\ Peels(types, [x \in types |-> LET i == CHOOSE j \in 1..Len(rs) : names[j] = x IN Refers(GC(rs[i])[2])])
    \* a method and a field of the same name clash
    /\ \A i \in 1..Len(rs) : LET v == GC(rs[i])[2] IN
         GK(v) \in {"group", "array"} => \A j \in 1..Len(GC(v)) : KeyName(GC(GC(v)[j])[1]) # "Valid"

=============================================================================
