------------------------------- MODULE CddlLex -------------------------------
(***************************************************************************)
(* The CDDL scanner as a state machine over characters, and the lexical    *)
(* grammar as predicates over whole lexemes.  The machine is what the      *)
(* implementation is compared with; the predicates are what the machine is *)
(* checked against (Inv_* below).                                          *)
(*                                                                         *)
(* A source is a sequence of characters.  A printable ASCII character is a *)
(* one-character string; the others have names: NL CR TAB NUL, U2 U3 U4 (a *)
(* well-formed character of 2, 3 or 4 bytes outside ASCII), CTL (another   *)
(* control byte) and BAD (one byte that starts no well-formed character).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Specials == {"NL", "CR", "TAB", "NUL", "U2", "U3", "U4", "CTL", "BAD"}

\* the characters of a chunk: a special or the letters of a string
Chars(chunk) == IF chunk \in Specials THEN <<chunk>>
                ELSE [i \in 1..Len(chunk) |-> SubSeq(chunk, i, i)]

Width(c) == CASE c = "U2" -> 2 [] c = "U3" -> 3 [] c = "U4" -> 4 [] OTHER -> 1

Range1(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
Letters == Range1("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
Digits  == Range1("0123456789")
HexDigits == Range1("0123456789abcdefABCDEF")
OctDigits == Range1("01234567")
BinDigits == Range1("01")
White   == {" ", "TAB", "NL", "CR"}
IdStart == Letters \cup {"@", "_", "$"}
IdBody  == IdStart \cup Digits \cup {"-", "."}

Reserved == {"int", "uint", "nint", "float", "float16", "float32", "float64",
             "tstr", "text", "bytes", "bstr", "bool", "true", "false", "nil",
             "null", "any"}
ControlOps == {".size", ".bits", ".regexp", ".cbor", ".cborseq", ".within",
               ".and", ".lt", ".le", ".gt", ".ge", ".eq", ".ne", ".default",
               ".plus", ".cat", ".det", ".abnf", ".abnfb", ".feature"}
\* characters that are a token whatever follows
Single == {"-", "(", "[", "{", ")", "]", "}", ",", ":", "?", "&", "#", "<",
           ">", "*", "+", "~"}

(***************************************************************************)
(* The scanner.  s.m is the lexeme being read, "start" between lexemes;    *)
(* s.txt its text where needed; (s.b, s.bl, s.bc) the offset, line and     *)
(* column of its first byte; (s.o, s.l, s.c) of the next character.        *)
(* Tokens are [k, o, l, c, e]: kind, position and end offset.              *)
(***************************************************************************)
LexInit == [m |-> "start", txt |-> "", b |-> 0, bl |-> 1, bc |-> 1,
            o |-> 0, l |-> 1, c |-> 1, toks |-> <<>>, errs |-> <<>>]

Token(k, o, l, c, e) == [k |-> k, o |-> o, l |-> l, c |-> c, e |-> e]

IdentKind(t)   == IF t \in Reserved THEN t ELSE "IDENT"
ControlKind(t) == IF t \in ControlOps THEN t ELSE "ILLEGAL"

\* the token ending before the current character
Emit(s, k) == [s EXCEPT !.toks = Append(@, Token(k, s.b, s.bl, s.bc, s.o)),
                        !.m = "start", !.txt = ""]
\* the token ending one byte earlier, a period is left over
EmitBeforeDot(s, k) ==
    [s EXCEPT !.toks = Append(@, Token(k, s.b, s.bl, s.bc, s.o - 1)),
              !.m = "dot", !.txt = ".", !.b = s.o - 1, !.bl = s.l, !.bc = s.c - 1]

Advance(s, ch) == IF ch = "NL" THEN [s EXCEPT !.o = @ + 1, !.l = @ + 1, !.c = 1]
                  ELSE [s EXCEPT !.o = @ + Width(ch), !.c = @ + Width(ch)]

Begin(s, m, txt) == [s EXCEPT !.m = m, !.txt = txt, !.b = s.o, !.bl = s.l, !.bc = s.c]
Consume(s, ch, m) == Advance([s EXCEPT !.m = m], ch)
\* consume ch, the last character of the lexeme
Close(s, ch, k) == Emit(Advance(s, ch), k)

StartStep(s, ch) ==
    CASE ch \in White   -> Advance(s, ch)
      [] ch \in IdStart -> Advance(Begin(s, "id", ch), ch)
      [] ch = "0"       -> Advance(Begin(s, "zero", ""), ch)
      [] ch \in Digits  -> Advance(Begin(s, "int", ""), ch)
      [] ch = ";"       -> Advance(Begin(s, "comment", ""), ch)
      [] ch = "\""      -> Advance(Begin(s, "text", ""), ch)
      [] ch = "/"       -> Advance(Begin(s, "slash", ""), ch)
      [] ch = "="       -> Advance(Begin(s, "eq", ""), ch)
      [] ch = "."       -> Advance(Begin(s, "dot", "."), ch)
      [] ch \in Single  -> Close(Begin(s, "one", ""), ch, ch)
      [] OTHER          -> Close(Begin(s, "one", ""), ch, "ILLEGAL")

Unterminated(s) == [s EXCEPT !.errs = Append(@, [o |-> s.b, l |-> s.bl, c |-> s.bc])]

RECURSIVE Step(_, _)
Step(s, ch) ==
  CASE s.m = "start" -> StartStep(s, ch)
    [] s.m = "id" -> IF ch \in IdBody
                     THEN Advance([s EXCEPT !.txt = @ \o ch], ch)
                     ELSE Step(Emit(s, IdentKind(s.txt)), ch)
    [] s.m = "zero" ->
         CASE ch = "x" -> Consume(s, ch, "hex")
           [] ch = "b" -> Consume(s, ch, "bin")
           [] ch = "o" -> Consume(s, ch, "oct")
           [] ch \in Digits -> Consume(s, ch, "int")
           [] ch = "." -> Consume(s, ch, "intdot")
           [] OTHER -> Step(Emit(s, "INT"), ch)
    [] s.m = "int" ->
         CASE ch \in Digits -> Consume(s, ch, "int")
           [] ch = "." -> Consume(s, ch, "intdot")
           [] OTHER -> Step(Emit(s, "INT"), ch)
    [] s.m = "intdot" -> IF ch \in Digits THEN Consume(s, ch, "float")
                         ELSE Step(EmitBeforeDot(s, "INT"), ch)
    [] s.m = "float" ->
         CASE ch \in Digits -> Consume(s, ch, "float")
           [] ch = "." -> Consume(s, ch, "floatdot")
           [] OTHER -> Step(Emit(s, "FLOAT"), ch)
    [] s.m = "floatdot" -> IF ch \in Digits THEN Consume(s, ch, "float")
                           ELSE Step(EmitBeforeDot(s, "FLOAT"), ch)
    [] s.m = "hex" -> IF ch \in HexDigits THEN Advance(s, ch) ELSE Step(Emit(s, "INT"), ch)
    [] s.m = "oct" -> IF ch \in OctDigits THEN Advance(s, ch) ELSE Step(Emit(s, "INT"), ch)
    [] s.m = "bin" -> IF ch \in BinDigits THEN Advance(s, ch) ELSE Step(Emit(s, "INT"), ch)
    [] s.m = "comment" -> IF ch = "NL" THEN Step(Emit(s, "COMMENT"), ch) ELSE Advance(s, ch)
    [] s.m = "text" ->
         CASE ch = "\"" -> Close(s, ch, "TEXT")
           [] ch = "NL" -> Step(Emit(Unterminated(s), "TEXT"), ch)
           [] OTHER -> Advance(s, ch)
    [] s.m = "slash" ->
         CASE ch = "=" -> Close(s, ch, "/=")
           [] ch = "/" -> Consume(s, ch, "slashslash")
           [] OTHER -> Step(Emit(s, "/"), ch)
    [] s.m = "slashslash" -> IF ch = "=" THEN Close(s, ch, "//=") ELSE Step(Emit(s, "//"), ch)
    [] s.m = "eq" -> IF ch = ">" THEN Close(s, ch, "=>") ELSE Step(Emit(s, "="), ch)
    [] s.m = "dot" ->
         CASE ch = "." -> Consume(s, ch, "dotdot")
           [] ch \in Letters -> Consume([s EXCEPT !.txt = "." \o ch], ch, "cop")
           [] OTHER -> Step(Emit(s, "."), ch)
    [] s.m = "dotdot" -> IF ch = "." THEN Close(s, ch, "...") ELSE Step(Emit(s, ".."), ch)
    [] s.m = "cop" -> IF ch \in Letters
                      THEN Advance([s EXCEPT !.txt = @ \o ch], ch)
                      ELSE Step(Emit(s, ControlKind(s.txt)), ch)

\* the end of the source ends every lexeme; the last token is EOF
Finish(s) ==
  LET f == CASE s.m = "start" -> s
             [] s.m = "id" -> Emit(s, IdentKind(s.txt))
             [] s.m \in {"zero", "int", "hex", "oct", "bin"} -> Emit(s, "INT")
             [] s.m = "float" -> Emit(s, "FLOAT")
             [] s.m = "intdot" -> Emit(EmitBeforeDot(s, "INT"), ".")
             [] s.m = "floatdot" -> Emit(EmitBeforeDot(s, "FLOAT"), ".")
             [] s.m = "comment" -> Emit(s, "COMMENT")
             [] s.m = "text" -> Emit(Unterminated(s), "TEXT")
             [] s.m = "slash" -> Emit(s, "/")
             [] s.m = "slashslash" -> Emit(s, "//")
             [] s.m = "eq" -> Emit(s, "=")
             [] s.m = "dot" -> Emit(s, ".")
             [] s.m = "dotdot" -> Emit(s, "..")
             [] s.m = "cop" -> Emit(s, ControlKind(s.txt))
  IN [f EXCEPT !.toks = Append(@, Token("EOF", s.o, s.l, s.c, s.o)), !.m = "done"]

StepAll(s, chars) == FoldLeft(Step, s, chars)
Lex(chars) == Finish(StepAll(LexInit, chars))

(***************************************************************************)
(* The lexical grammar, independently of the machine: whole lexemes.  lex  *)
(* is a sequence of characters, after the character that follows ("" at    *)
(* the end of the source).                                                 *)
(***************************************************************************)
RECURSIVE Cat(_)
Cat(lex) == IF lex = <<>> THEN "" ELSE Head(lex) \o Cat(Tail(lex))

AllIn(lex, from, S) == \A i \in from..Len(lex) : lex[i] \in S
\* the character sequence of a string constant
Is(lex, str) == Len(lex) = Len(str) /\ \A i \in 1..Len(str) : lex[i] = SubSeq(str, i, i)

IsIdent(x) == x # <<>> /\ x[1] \in IdStart /\ AllIn(x, 1, IdBody)
IsPrefixed(x, p, S) == Len(x) >= 2 /\ x[1] = "0" /\ x[2] = p /\ AllIn(x, 3, S)
IsInt(x) == \/ x # <<>> /\ AllIn(x, 1, Digits)
            \/ IsPrefixed(x, "x", HexDigits)
            \/ IsPrefixed(x, "o", OctDigits)
            \/ IsPrefixed(x, "b", BinDigits)
IsFloat(x) == /\ Len(x) >= 3 /\ AllIn(x, 1, Digits \cup {"."})
              /\ \E i \in 1..Len(x) : x[i] = "."
              /\ \A i \in 1..Len(x) : x[i] = "." =>
                    i > 1 /\ i < Len(x) /\ x[i-1] # "." /\ x[i+1] # "."
IsOp(x) == \/ Len(x) = 1 /\ x[1] \in Single \cup {".", "=", "/"}
           \/ \E o \in {"..", "...", "/=", "//", "//=", "=>"} : Is(x, o)
IsDotWord(x) == Len(x) >= 2 /\ x[1] = "." /\ AllIn(x, 2, Letters)
\* a text literal ends at the next quote, or unterminated at the end of the line
IsTextClosed(x) == /\ Len(x) >= 2 /\ x[1] = "\"" /\ x[Len(x)] = "\""
                   /\ \A i \in 2..Len(x)-1 : x[i] \notin {"\"", "NL"}
IsTextOpen(x, after) == /\ Len(x) >= 1 /\ x[1] = "\"" /\ after \in {"", "NL"}
                        /\ \A i \in 2..Len(x) : x[i] \notin {"\"", "NL"}
IsCommentLex(x) == x # <<>> /\ x[1] = ";" /\ \A i \in 1..Len(x) : x[i] # "NL"
IsOther(x) == /\ Len(x) = 1 /\ x[1] \notin White \cup IdStart \cup Digits \cup Single
              /\ x[1] \notin {";", "\"", "/", "=", "."}

IsLexeme(x, after) == \/ IsIdent(x) \/ IsInt(x) \/ IsFloat(x) \/ IsOp(x) \/ IsDotWord(x)
                      \/ IsTextClosed(x) \/ IsTextOpen(x, after) \/ IsCommentLex(x) \/ IsOther(x)

KindOf(x, after) ==
    CASE IsIdent(x) -> IF \E r \in Reserved : Is(x, r)
                       THEN CHOOSE r \in Reserved : Is(x, r) ELSE "IDENT"
      [] IsInt(x) -> "INT"
      [] IsFloat(x) -> "FLOAT"
      [] IsOp(x) -> Cat(x)
      [] IsDotWord(x) -> IF \E r \in ControlOps : Is(x, r)
                         THEN CHOOSE r \in ControlOps : Is(x, r) ELSE "ILLEGAL"
      [] IsTextClosed(x) \/ IsTextOpen(x, after) -> "TEXT"
      [] IsCommentLex(x) -> "COMMENT"
      [] IsOther(x) -> "ILLEGAL"
=============================================================================
