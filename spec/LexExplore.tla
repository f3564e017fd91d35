----------------------------- MODULE LexExplore -----------------------------
(***************************************************************************)
(* Every source of up to MaxLen chunks over an alphabet: checks the scanner*)
(* machine against the lexical grammar and prints each source with the     *)
(* tokens the implementation has to return.                                *)
(***************************************************************************)
EXTENDS CddlLex, Json
CONSTANTS Alphabet,   \* a set of chunks
          MaxLen,     \* longest source, in chunks
          Starts    \* the sources to start from, sequences of chunks

(***************************************************************************)
(* Alphabets and starting points for the configurations.                   *)
(***************************************************************************)
\* one representative of every class of characters the scanner tells apart
A_Full == {"a", "G", "x", "b", "o", "e", "@", "_", "$", "0", "1", "7", "9", "-", "."}
            \cup {"\"", ";", " ", "TAB", "NL", "CR", "(", "*", ":", ",", "/", "=", ">", "#"}
            \cup {"U2", "U3", "BAD", "NUL", "\\", "!"}
\* every printable character and every special one
A_Every == Range1(" !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~")
            \cup {"\"", "\\"} \cup Specials
\* numbers, ranges and control operators
A_Num == {"0", "1", "8", "x", "b", "o", "a", ".", "X", "g"}
\* operators made of several characters
A_Ops == {"/", "=", ">", ".", "a", " ", "//=", "..."}
\* literals, comments, lines
A_Lines == {"\"", ";", "NL", "CR", " ", "a", "\\", "U2", "BAD"}
\* words: reserved names and control operators, whole, cut short and extended
Cut(w) == SubSeq(w, 1, Len(w) - 1)
A_Words == Reserved \cup ControlOps \cup {Cut(w) : w \in ControlOps}
A_Names == {Cut(w) : w \in Reserved} \cup {"Int", "TRUE", "text_literal", "tstrs", "IDENT", "INTERNAL", "float8"}
A_Sep == {" ", ".", "a", "1", "(", "-", "_"}
A_WordsSep == A_Words \cup A_Names \cup A_Sep

P_Empty == {<<>>}
\* starting points on later lines and columns, after tokens and open lexemes of every kind
P_Ctx == {<<>>, <<"NL">>, <<"a", " ">>, <<"U3", "NL", " ">>, <<"\"", "a">>, <<";", "a">>,
          <<"NL", "NL", "\"", "\"">>, <<"1", ".", "5">>, <<"0", "x">>, <<"=">>, <<"\"", "NL">>}

\* after every word and name, and after every character
P_Words == {<<w>> : w \in A_Words \cup A_Names}
P_Chars == {<<c>> : c \in A_Every}
\* inside lexemes of every kind
P_Radix == {<<"0">>, <<"0x">>, <<"0b">>, <<"0o">>}
P_Inside == P_Radix \cup {<<w>> : w \in {"0xF", "0b1", "0o7", "7", "7.", "7.5", "7.5.", "7..", "a", "a-", "a.", "$", "@", "_", "\"", "\"a", ";", ".", "..", "...",
                                       ".l", ".lt", ".cbors", "=", "/", "//", "-", "-7", "a:", "\"\"", "flo", "float1", "tru"}}

VARIABLES src, s, n
vars == <<src, s, n>>

PrefixChars(p) == FoldLeft(LAMBDA a, ch : a \o Chars(ch), <<>>, p)

Init == \E p \in Starts : /\ src = PrefixChars(p)
                            /\ s = StepAll(LexInit, PrefixChars(p))
                            /\ n = 0
Next == /\ n < MaxLen
        /\ \E a \in Alphabet : /\ src' = src \o Chars(a)
                               /\ s' = StepAll(s, Chars(a))
                               /\ n' = n + 1
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == Finish(s)
\* offset of the i-th character (i may be Len(src) + 1)
RECURSIVE Off(_)
Off(i) == IF i = 1 THEN 0 ELSE Off(i - 1) + Width(src[i - 1])
Offsets == [i \in 1..Len(src) + 1 |-> Off(i)]
IndexAt(offs, o) == CHOOSE i \in 1..Len(src) + 1 : offs[i] = o
After(i) == IF i <= Len(src) THEN src[i] ELSE ""

\* C01: one token per byte at most besides the end of the input
Inv_Bounded == Len(Done.toks) <= Off(Len(src) + 1) + 1

\* C02: the tokens tile the source, only whitespace is left out
Inv_Tiling ==
    LET offs == Offsets  t == Done.toks IN
    /\ \A k \in 1..Len(t) : \E i \in 1..Len(src) + 1 : offs[i] = t[k].o
    /\ t[Len(t)].k = "EOF" /\ t[Len(t)].o = offs[Len(src) + 1]
    /\ \A k \in 1..Len(t) :
         LET gapFrom == IF k = 1 THEN 0 ELSE t[k-1].e IN
         /\ t[k].o >= gapFrom
         /\ t[k].k # "EOF" => t[k].e > t[k].o
         /\ \A i \in 1..Len(src) : offs[i] >= gapFrom /\ offs[i] < t[k].o => src[i] \in White

\* C02: lines and columns
Inv_Positions ==
    LET offs == Offsets  t == Done.toks IN
    \A k \in 1..Len(t) :
       LET nls == {i \in 1..Len(src) : offs[i] < t[k].o /\ src[i] = "NL"} IN
       /\ t[k].l = 1 + Cardinality(nls)
       /\ t[k].c = IF nls = {} THEN t[k].o + 1
                   ELSE t[k].o - (CHOOSE o \in {offs[i] : i \in nls} :
                                    \A i \in nls : offs[i] <= o)

\* C03: every token is the longest lexeme at its place, of the right kind
Inv_LongestLexeme ==
    LET offs == Offsets  t == Done.toks IN
    \A k \in 1..Len(t) : t[k].k # "EOF" =>
       LET b == IndexAt(offs, t[k].o)  e == IndexAt(offs, t[k].e) IN
       /\ IsLexeme(SubSeq(src, b, e - 1), After(e))
       /\ t[k].k = KindOf(SubSeq(src, b, e - 1), After(e))
       /\ \A x \in e..Len(src) : ~ IsLexeme(SubSeq(src, b, x), After(x + 1))

\* C03: one lexical error per unterminated text literal, at its quote
Inv_LexErrors ==
    LET offs == Offsets  t == Done.toks
        open == {k \in 1..Len(t) : /\ t[k].k = "TEXT"
                                   /\ ~ IsTextClosed(SubSeq(src, IndexAt(offs, t[k].o),
                                                            IndexAt(offs, t[k].e) - 1))}
    IN [i \in 1..Len(Done.errs) |-> Done.errs[i].o]
         = SetToSortSeq({t[k].o : k \in open}, <)

\* the case for the implementation: [chars, [[kind, offset, line, column, end]..], [error offsets]]
Case == [src |-> src,
         toks |-> [i \in 1..Len(Done.toks) |-> <<Done.toks[i].k, Done.toks[i].o, Done.toks[i].l,
                                                 Done.toks[i].c, Done.toks[i].e>>],
         errs |-> [i \in 1..Len(Done.errs) |-> Done.errs[i].o]]
Emitted == PrintT("CASE " \o ToJson(Case))
=============================================================================
