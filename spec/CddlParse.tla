------------------------------ MODULE CddlParse ------------------------------
(***************************************************************************)
(* The CDDL parser as a pushdown machine over tokens: one Step per token.  *)
(*                                                                         *)
(* A token is [k |-> kind, v |-> text, ok |-> roles, sl |-> same line].    *)
(* Kinds are those of CddlLex.  For numbers, roles holds the places where  *)
(* the number is admitted: "i" as an integer literal, "f" as a float       *)
(* literal, "u" as an occurrence bound, "t" after #.  A text literal with  *)
(* role "open" lacks its closing quote.  For comments, sl is whether the   *)
(* comment starts on the line of the token before it.                      *)
(*                                                                         *)
(* A node is <<kind, index of its first token, text, children>>.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

TypeKinds == {"int", "uint", "nint", "float", "float16", "float32", "float64",
              "tstr", "text", "bytes", "bstr", "bool", "null", "nil"}
BoolKinds == {"true", "false"}
AssignOps == {"=", "/=", "//="}
CompareOps == {".lt", ".le", ".gt", ".ge", ".eq", ".ne"}
RangeOps == {"..", "..."}
ControlKinds == {".size", ".bits", ".regexp", ".cbor", ".cborseq", ".within",
                 ".and", ".default", ".plus", ".cat", ".det", ".abnf", ".abnfb",
                 ".feature"} \cup CompareOps
Openers == {"(", "[", "{"}
Closer(o) == CASE o = "(" -> ")" [] o = "[" -> "]" [] o = "{" -> "}"
ListKind(o) == CASE o = "(" -> "group" [] o = "[" -> "array" [] o = "{" -> "map"

\* how tightly an operator binds to its left
Prec(k) == CASE k \in AssignOps -> 1
             [] k = "//" -> 2
             [] k = "," -> 3
             [] k \in {"*", "+", "?"} -> 4
             [] k \in {":", "=>"} -> 5
             [] k = "/" -> 6
             [] k \in RangeOps \cup ControlKinds -> 7
             [] k \in {"&", "~"} -> 8
             [] OTHER -> 0
\* the operators that may follow an operand
InfixOps == {"//", ",", "*", ":", "=>", "/", ".size", ".bits", ".regexp"} \cup RangeOps \cup CompareOps

Node(kind, p, v, ch) == <<kind, p, v, ch>>
Kind(n) == n[1]
Start(n) == n[2]
Text(n) == n[3]
Kids(n) == n[4]
NoNode == <<"none", 0, "", <<>>>>

NumTypes == {"uint", "int", "nint", "float", "float16", "float32", "float64"}
IsType(n, S) == Kind(n) = "type" /\ Text(n) \in S

(***************************************************************************)
(* State.  m: what is expected                                             *)
(*   start   a rule                    assign  an assignment operator      *)
(*   nud     an operand                item    an operand or a closer      *)
(*   led     an operator or the end of the operand st.v                    *)
(*   occ     the upper bound or the item of an occurrence                  *)
(*   tag     the number or the content of a tag, tag2: the content         *)
(*   comma   anything, after a comma                                       *)
(* stk: the operators waiting for their right operand, innermost last;     *)
(*   each is [f, mp, a, v, kids, o]: f the operator, mp how tightly it     *)
(*   binds its operand, a the index of the first token of its construct,   *)
(*   kids what it has so far, o the index of the operator (.regexp only).  *)
(* n: number of tokens read.  pc: the comments before the next token.      *)
(* out: top level entries.  env: names to values, first definition.        *)
(* refs: uses of names.  chks: ranges with a name as an end.               *)
(* diags: <<token index, class>>.                                          *)
(***************************************************************************)
Frame(f, mp, a, v, kids) == [f |-> f, mp |-> mp, a |-> a, v |-> v, kids |-> kids, o |-> 0]

ParseInit(env) ==
    [m |-> "start", stk |-> <<>>, v |-> NoNode, n |-> 0, pc |-> <<>>, id |-> 0, idn |-> "",
     justEntry |-> FALSE, out |-> <<>>, env |-> env, defs |-> <<>>, refs |-> <<>>, chks |-> <<>>,
     diags |-> <<>>]

Top(st) == st.stk[Len(st.stk)]
Pop(st) == [st EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
Push(st, f) == [st EXCEPT !.stk = Append(@, f)]
\* token number i is read; the comments before it are inside a rule
Read(st, m) == [st EXCEPT !.m = m, !.n = @ + 1, !.pc = <<>>]

FlushComments(st) == [st EXCEPT !.out = @ \o [i \in 1..Len(st.pc) |-> Node("comment", st.pc[i].n, "", <<>>)],
                                !.pc = <<>>]

\* a rule is abandoned; the tokens read so far are gone
Fail(st, at, class) == [st EXCEPT !.diags = Append(@, <<at, class>>), !.m = "start", !.stk = <<>>,
                                  !.v = NoNode, !.id = 0, !.justEntry = FALSE]

\* the comment after the last token on its line, if any
HasTrailing(st) == st.pc # <<>> /\ st.pc[1].sl
TrailingNode(st) == Node("comment", st.pc[1].n, "", <<>>)
TakeTrailing(st) == [st EXCEPT !.pc = Tail(@)]

Operand(st, node) == [st EXCEPT !.v = node, !.m = "led"]

\* the name just read is a use of it unless a colon follows
NoteUse(st, k) ==
    IF st.id = 0 THEN st
    ELSE IF k = ":" THEN [st EXCEPT !.id = 0]
    ELSE [st EXCEPT !.id = 0,
                    !.refs = IF Len(st.idn) > 0 /\ SubSeq(st.idn, 1, 1) = "$" THEN @
                             ELSE Append(@, <<st.id, st.idn>>)]

FirstPos(fr) == fr.a

\* the rule on the bottom of the stack is complete
CompleteRule(st) ==
    LET fr == Top(st)
        trail == HasTrailing(st)
        kids == <<fr.kids[1], st.v>> \o (IF trail THEN <<TrailingNode(st)>> ELSE <<>>)
        s1 == [st EXCEPT !.stk = <<>>, !.m = "start", !.v = NoNode, !.justEntry = FALSE,
                         !.out = Append(@, Node("rule", fr.a, fr.v, kids)),
                         !.pc = IF trail THEN Tail(@) ELSE @]
        name == Text(fr.kids[1])
    IN IF name \in DOMAIN st.env
       THEN IF fr.v = "=" THEN [s1 EXCEPT !.diags = Append(@, <<fr.a, "dup">>)] ELSE s1
       ELSE [s1 EXCEPT !.env = @ @@ (name :> st.v), !.defs = Append(@, <<name, fr.a>>)]

(***************************************************************************)
(* An operand is complete: what the innermost waiting operator makes of it *)
(***************************************************************************)
RangeEnd(n) == Kind(n) \in {"int", "float", "id"}

Reduce(st) ==
    LET fr == Top(st)  s1 == Pop(st) IN
    CASE fr.f \in {"/", "//"} ->
           Operand(s1, Node("choice", fr.a, fr.f, Append(fr.kids, st.v)))
      [] fr.f \in {"~", "&", "?"} ->
           Operand(s1, Node(CASE fr.f = "~" -> "unwrap" [] fr.f = "&" -> "enum" [] fr.f = "?" -> "opt",
                            fr.a, "", <<st.v>>))
      [] fr.f \in {"*", "+"} ->
           Operand(s1, Node("occ", fr.a, fr.v, Append(fr.kids, st.v)))
      [] fr.f \in {".size", ".bits", ".regexp"} \cup CompareOps ->
           Operand(s1, Node("control", fr.a, fr.f, Append(fr.kids, st.v)))
      [] fr.f \in {":", "=>"} ->
           LET trail == HasTrailing(st)
               node == Node("entry", fr.a, "", Append(fr.kids, st.v)
                                                 \o (IF trail THEN <<TrailingNode(st)>> ELSE <<>>))
           IN [Operand(IF trail THEN TakeTrailing(s1) ELSE s1, node) EXCEPT !.justEntry = ~ trail]
      [] fr.f \in RangeOps ->
           LET from == fr.kids[1]
               s2 == Operand(s1, Node("range", fr.a, fr.f, <<from, st.v>>))
           IN IF \/ ~ RangeEnd(st.v)
                 \/ Kind(from) = "int" /\ Kind(st.v) = "float"
                 \/ Kind(from) = "float" /\ Kind(st.v) = "int"
              THEN Fail(st, Start(st.v), "range-end")
              ELSE IF Kind(from) = "id" \/ Kind(st.v) = "id"
              THEN [s2 EXCEPT !.chks = Append(@, <<from, st.v>>)] ELSE s2

(***************************************************************************)
(* The tokens                                                              *)
(***************************************************************************)
LeftAdmits(op, left) ==
    CASE op \in {":", "=>"} -> Kind(left) \in {"id", "int"}
      [] op = ".size" -> IsType(left, {"bstr", "bytes", "uint", "tstr", "text"})
      [] op = ".regexp" -> IsType(left, {"tstr", "text"})
      [] op \in CompareOps -> IsType(left, NumTypes)
      [] op \in RangeOps -> RangeEnd(left)
      [] OTHER -> TRUE

RightPrec(op) == CASE op \in {":", "=>", "/"} -> 5
                   [] op = "//" -> 1
                   [] op = "*" -> 4
                   [] OTHER -> 7

\* an operand starts with t
Nud(st, t) ==
    LET i == st.n + 1  s == Read(st, "led")  Leaf(kind, v) == Operand(s, Node(kind, i, v, <<>>)) IN
    CASE t.k = "IDENT" -> [Leaf("id", t.v) EXCEPT !.id = i, !.idn = t.v]
      [] t.k \in TypeKinds -> Leaf("type", t.k)
      [] t.k \in BoolKinds -> Leaf("bool", t.k)
      [] t.k = "TEXT" -> Leaf("text", t.v)
      [] t.k = "INT" /\ "i" \in t.ok -> Leaf("int", t.v)
      [] t.k = "FLOAT" /\ "f" \in t.ok -> Leaf("float", t.v)
      [] t.k \in Openers -> Push(Read(st, "item"), Frame(t.k, 0, i, "", <<>>))
      [] t.k \in {"~", "&"} -> Push(Read(st, "nud"), Frame(t.k, 8, i, "", <<>>))
      [] t.k = "?" -> Push(Read(st, "nud"), Frame("?", 4, i, "", <<>>))
      [] t.k \in {"*", "+"} ->
           Push(Read(st, IF t.k = "*" THEN "occ" ELSE "nud"),
                Frame(t.k, 4, i, t.k, <<Node("bound", i, IF t.k = "*" THEN "0" ELSE "1", <<>>)>>))
      [] t.k = "#" -> Push(Read(st, "tag"), Frame("#", 5, i, "", <<>>))
      [] t.k \in {"INT", "FLOAT"} -> Fail(Read(st, "start"), i, "number") \* out of range or no number
      [] OTHER -> Fail(Read(st, "start"), i, "operand")

CloseTag(st) == LET fr == Top(st) IN Operand(Pop(st), Node("tag", fr.a, fr.v, fr.kids))

RECURSIVE Dispatch(_, _), Led(_, _), Unwind(_)

\* st.v is the whole item of the tag on top
Tagged(st, t) ==
    IF t.k = ")" THEN LET s == Read(st, "led") IN
                      CloseTag([s EXCEPT !.stk[Len(s.stk)].v = @ \o "I", !.stk[Len(s.stk)].kids = Append(@, st.v)])
    ELSE Dispatch(Fail(st, st.n + 1, "tag"), t)

\* all operators up to the enclosing list or rule have their operands
\* (or one has failed)
Unwind(st) == IF st.m = "start" \/ Top(st).f \in Openers \cup {"rule", "#"} THEN st ELSE Unwind(Reduce(st))

Item(st) == \* st.v is a whole member of the list on top
    LET k == Len(st.stk) IN [st EXCEPT !.stk[k].kids = Append(@, st.v), !.m = "item", !.justEntry = FALSE]

\* the operand st.v is followed by t
Led(st, t) ==
    LET fr == Top(st)  i == st.n + 1  op == t.k
        binds == Prec(op) > fr.mp /\ op \in InfixOps /\ (op = "*" => Kind(st.v) = "int")
        r == [Read(st, "nud") EXCEPT !.justEntry = FALSE]
    IN
    CASE op = "," /\ binds -> [Read(st, "comma") EXCEPT !.justEntry = FALSE]
         \* a keyed member takes its comma, and the comment after it if it has none yet
      [] op = "," /\ fr.f \in {":", "=>"} -> LET e == Reduce(st) IN [Read(e, "comma") EXCEPT !.justEntry = e.justEntry]
      [] binds /\ ~ LeftAdmits(op, st.v) -> Fail(r, i, "left")
      [] binds /\ op = ".regexp" -> Push([r EXCEPT !.m = "regexp"], [Frame(op, 7, Start(st.v), op, <<st.v>>) EXCEPT !.o = i])
      [] binds /\ op \in CompareOps -> Push([r EXCEPT !.m = "cmp"], Frame(op, 7, Start(st.v), op, <<st.v>>))
      [] binds /\ op = "*" ->
           Push([r EXCEPT !.m = "occ"], Frame("*", 4, Start(st.v), "*", <<Node("bound", Start(st.v), Text(st.v), <<>>)>>))
      [] binds /\ op \in {":", "=>"} ->
           Push(r, Frame(op, 5, Start(st.v), "",
                         <<IF Kind(st.v) = "int" THEN Node("intkey", Start(st.v), Text(st.v), <<>>) ELSE st.v>>))
      [] binds -> Push(r, Frame(op, RightPrec(op), Start(st.v), op, <<st.v>>))
      [] ~ binds /\ fr.f = "rule" -> Dispatch(CompleteRule(st), t)
      [] ~ binds /\ fr.f \in Openers -> Dispatch(Item(st), t)
      [] ~ binds /\ fr.f = "#" -> Tagged(st, t)
      [] OTHER -> Dispatch(Reduce(st), t)

Dispatch(st, t) ==
    LET i == st.n + 1 IN
    CASE st.m = "start" ->
           LET s == FlushComments(st) IN
           IF t.k = "EOF" THEN [s EXCEPT !.m = "end"]
           ELSE IF t.k = "IDENT"
           THEN Push(Read(s, "assign"), Frame("rule", 0, i, "", <<Node("id", i, t.v, <<>>)>>))
           ELSE Fail(Read(s, "start"), i, "name")
      [] st.m = "assign" ->
           IF t.k \in AssignOps THEN [Read(st, "nud") EXCEPT !.stk[1].v = t.k]
           ELSE Fail(Read(st, "start"), Top(st).a, "assign")
      [] st.m = "nud" -> Nud(st, t)
      [] st.m = "item" ->
           LET fr == Top(st) IN
           IF t.k = Closer(fr.f)
           THEN Operand(Pop(Read(st, "led")), Node(ListKind(fr.f), fr.a, "", fr.kids))
           ELSE Nud(st, t)
      [] st.m = "occ" ->
           IF t.k # "INT" THEN Nud(st, t)
           ELSE IF "u" \notin t.ok THEN Fail(Read(st, "start"), i, "bound")
           ELSE LET s == Read(st, "nud") IN
                [s EXCEPT !.stk[Len(s.stk)].kids = Append(@, Node("bound", i, t.v, <<>>)),
                          !.stk[Len(s.stk)].v = "*M"]
      [] st.m = "tag" ->
           IF t.k = "INT" /\ "u" \in t.ok
           THEN LET s == Read(st, "tag2") IN
                [s EXCEPT !.stk[Len(s.stk)].v = "M",
                          !.stk[Len(s.stk)].kids = <<Node("major", i, t.v, <<>>)>>]
           ELSE IF t.k = "FLOAT" /\ "t" \in t.ok
           THEN LET s == Read(st, "tag2") IN
                [s EXCEPT !.stk[Len(s.stk)].v = "MN",
                          !.stk[Len(s.stk)].kids = <<Node("major", i, t.v, <<>>), Node("tagnum", i, t.v, <<>>)>>]
           ELSE IF t.k \in {"INT", "FLOAT"} THEN Fail(Read(st, "start"), i, "tag-number")
           ELSE Dispatch([st EXCEPT !.m = "tag2"], t)
      [] st.m = "tag2" -> IF t.k = "(" THEN Read(st, "nud") ELSE Led(CloseTag(st), t)
      [] st.m = "cmp" ->
           IF t.k \in NumTypes \cup {"INT", "FLOAT", "IDENT", "("} THEN Nud(st, t)
           ELSE Dispatch(Fail(st, i, "right"), t)
      [] st.m = "regexp" ->
           IF t.k \in {"TEXT", "IDENT"} THEN Nud(st, t)
           ELSE Dispatch(Fail(st, Top(st).o, "right"), t)
      [] st.m = "led" -> Led(st, t)
      [] st.m = "comma" ->
           LET takes == st.justEntry /\ HasTrailing(st)
               s1 == IF takes THEN [TakeTrailing(st) EXCEPT !.v = Node("entry", Start(st.v), "", Append(Kids(st.v), TrailingNode(st)))]
                     ELSE st
               s2 == Unwind([s1 EXCEPT !.justEntry = FALSE])
           IN CASE s2.m = "start" -> Dispatch(s2, t)
                [] Top(s2).f = "rule" -> Dispatch(CompleteRule(s2), t)
                [] Top(s2).f = "#" -> Tagged(s2, t)
                [] OTHER -> Dispatch(Item(s2), t)

\* a text literal without its closing quote is a lexical error wherever it stands
Lexical(st, t) == IF "open" \in t.ok THEN [st EXCEPT !.diags = Append(@, <<st.n + 1, "lex">>)] ELSE st

Step(st, t) ==
    IF t.k = "COMMENT" THEN [st EXCEPT !.n = @ + 1, !.pc = Append(@, [n |-> st.n + 1, sl |-> t.sl])]
    ELSE Dispatch(NoteUse(Lexical(st, t), t.k), t)

EofToken == [k |-> "EOF", v |-> "", ok |-> {}, sl |-> FALSE]

(***************************************************************************)
(* After the last token: undefined names and range ends                    *)
(***************************************************************************)
\* the value a name stands for, through other names; "loop" for circular names
RECURSIVE Resolve(_, _, _)
Resolve(env, n, seen) ==
    IF Kind(n) # "id" THEN Kind(n)
    ELSE IF Text(n) \in seen THEN "loop"
    ELSE IF Text(n) \notin DOMAIN env THEN "undefined"
    ELSE Resolve(env, env[Text(n)], seen \cup {Text(n)})

RangeDiags(env, chk) ==
    LET a == Resolve(env, chk[1], {})  b == Resolve(env, chk[2], {}) IN
       (IF a \notin {"int", "float", "undefined"} THEN {<<Start(chk[1]), "range-kind">>} ELSE {})
  \cup (IF b \notin {"int", "float", "undefined"} THEN {<<Start(chk[2]), "range-kind">>} ELSE {})
  \cup (IF {a, b} = {"int", "float"} THEN {<<Start(chk[2]), "range-mixed">>} ELSE {})

Eof(st) ==
    LET s == Step(st, EofToken)
        s0 == IF s.m = "end" THEN s ELSE Dispatch([s EXCEPT !.n = st.n], EofToken)
        undef == [i \in 1..Len(s0.refs) |-> <<s0.refs[i][1], "undef">>]
        rd == FoldLeft(LAMBDA acc, c : acc \o SetToSeq(RangeDiags(s0.env, c)), <<>>, s0.chks)
    IN [s0 EXCEPT !.diags = @ \o SelectSeq(undef, LAMBDA d : \E i \in 1..Len(s0.refs) :
                                                   s0.refs[i][1] = d[1] /\ s0.refs[i][2] \notin DOMAIN s0.env)
                              \o rd]

NoEnv == [x \in {} |-> NoNode]
ParseIn(env, toks) == Eof(FoldLeft(Step, ParseInit(env), toks))
Parse(toks) == ParseIn(NoEnv, toks)
=============================================================================
