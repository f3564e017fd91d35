---------------------------- MODULE ParseExplore ----------------------------
(***************************************************************************)
(* Token sequences read by the parser machine.                             *)
(*                                                                         *)
(* With VIEW Control, TLC visits every control state of the machine (what  *)
(* is expected, the waiting operators, the kind of the current operand)    *)
(* once and takes every token from it: one case per transition, completed  *)
(* to the end and followed by another rule.  Without it, every sequence up *)
(* to MaxLen.                                                              *)
(***************************************************************************)
EXTENDS ParseCases
CONSTANTS Alphabet, MaxLen, MaxDepth, Starts, Valid

VARIABLES toks, st
vars == <<toks, st>>

A_Operand == {Id("a"), Id("b"), Id("$s"), Num("1"), Num("0x10"), Float("1.5"), Txt("t"), T("tstr"), T("uint"),
              T("int"), T("float16"), T("bytes"), T("bool"), T("true"), T("null")}
A_Numbers == {BigInt, BadInt, BadFloat}
A_Controls == Ts({".size", ".bits", ".regexp", ".lt", ".eq", ".cbor", ".default"})
A_Comments == {Rem(" c"), RemLn(" d")}
A_Bad == {OpenText, Ill("!"), Ill(".foo"), Ill("\\")} \cup Ts({"-", "any", ".", "<"})
A_All == A_Operand \cup A_Numbers \cup A_Controls \cup A_Comments \cup A_Bad \cup Ts(Operators \cup Brackets)
A_AllTypes == A_All \cup Ts(TypeKinds \cup ControlKinds \cup BoolKinds \cup Junk)
\* no comments, no bad tokens: for well-formed sources
A_Good == A_Operand \cup A_Controls \cup Ts(Operators \cup Brackets) \cup Ts({".bits", ".ne", "text", "nint", "float", "nil", "false"})
A_GoodComments == A_Good \cup A_Comments
\* structure: few representatives, for longer exhaustive sequences
A_Small == {Id("a"), Num("1"), T("tstr")} \cup Ts({"=", ":", ",", "/", "//", "?", "*", "(", ")", "[", "]", "~", ".size"})
A_Rules == {Id("a"), Id("b"), Num("1"), T("="), T("/="), T(","), T("["), T("]"), T("int"), Rem(" c"), RemLn(" d"), Ill("!")}

S_Empty == {<<>>}
S_Rule == {<<Id("a"), T("=")>>}
S_Group == {<<Id("a"), T("="), T("("), Id("k"), T(":")>>, <<Id("a"), T("="), T("[")>>}

Run(s, ts) == FoldLeft(Step, s, ts)

Init == \E x \in Starts : toks = x /\ st = Run(ParseInit(NoEnv), x)

Faults(s) == s.diags # <<>>
Depth(s) == Len(s.stk)

\* the rest of the source: open operators and brackets are closed and a rule follows
Tail1 == <<Id("zz"), T("="), T("bool")>>
Completed(ts, s) ==
    LET c == Completion(s)
        comment == Len(ts) > 0 /\ ts[Len(ts)].k = "COMMENT"
        all == ts \o c \o Tail1
    IN <<all, Eof(Run(s, c \o Tail1))>>

EmitTransition(ts, s) ==
    LET c == Completed(ts, s)  e == Eof(s) IN
    /\ PrintCase(<<Line(c[1], c[2])>>)
    \* and cut off here
    /\ (Depth(s) > 0 => PrintCase(<<Line(ts, e)>>))

Next == /\ Len(toks) < MaxLen
        /\ Depth(st) <= MaxDepth
        /\ \E t \in Alphabet :
             LET s == Step(st, t) IN
             /\ Feasible(toks, t)
             /\ (Valid => ~ Faults(s) /\ s.m # "end")
             /\ toks' = Append(toks, t)
             /\ st' = s
Spec == Init /\ [][Next]_vars

NextEmit == Next /\ EmitTransition(toks', st')
SpecEmit == Init /\ [][NextEmit]_vars

\* what the machine's future depends on
Shape(n) == IF Kind(n) = "type" THEN Text(n) ELSE Kind(n)
Control == <<st.m, [i \in 1..Len(st.stk) |-> <<st.stk[i].f, st.stk[i].v = "=",
                     IF st.stk[i].f \in RangeOps THEN Shape(st.stk[i].kids[1]) ELSE "">>],
             Shape(st.v), st.justEntry, [i \in 1..Len(st.pc) |-> st.pc[i].sl], Len(st.out) > 0, Len(st.diags) > 0>>

Emitted == EmitTransition(toks, st)
\* long random behaviours: only their ends
EmittedLong == (Len(toks) = MaxLen \/ st.m = "end") => EmitTransition(toks, st)

(***************************************************************************)
(* What the machine guarantees, over all explored sequences                *)
(***************************************************************************)
Fin == Eof(st)
\* C05: reading ends
Inv_Ends == Fin.m = "end"

OperandKinds == {"IDENT", "INT", "TEXT", "FLOAT"} \cup TypeKinds \cup BoolKinds
LeafKinds == {"id", "int", "intkey", "float", "text", "type", "bool", "bound", "major"}
RECURSIVE Leaves(_)
Leaves(n) == IF Kind(n) \in LeafKinds THEN <<Start(n)>>
             ELSE FoldLeft(LAMBDA acc, c : acc \o Leaves(c), <<>>, Kids(n))
AllLeaves == FoldLeft(LAMBDA acc, n : acc \o Leaves(n), <<>>, Fin.out)
RECURSIVE CountNodes(_, _)
CountNodes(n, k) == (IF Kind(n) = k THEN 1 ELSE 0) + FoldLeft(LAMBDA acc, c : acc + CountNodes(c, k), 0, Kids(n))
Nodes(k) == FoldLeft(LAMBDA acc, n : acc + CountNodes(n, k), 0, Fin.out)
TokensIn(S) == Len(SelectSeq(toks, LAMBDA t : t.k \in S))
Indexes(S) == SelectSeq([i \in 1..Len(toks) |-> i], LAMBDA i : toks[i].k \in S)

\* C08: without diagnostics every operand of the source is one leaf of the tree, in order, and
\* every operator is one node
Inv_Complete ==
    Fin.diags = <<>> =>
      /\ SelectSeq(AllLeaves, LAMBDA i : toks[i].k \in OperandKinds) = Indexes(OperandKinds)
      /\ Nodes("choice") = TokensIn({"/", "//"})
      /\ Nodes("entry") = TokensIn({":", "=>"})
      /\ Nodes("control") = TokensIn(ControlKinds)
      /\ Nodes("range") = TokensIn(RangeOps)
      /\ Nodes("occ") = TokensIn({"*", "+"})
      /\ Nodes("opt") = TokensIn({"?"})
      /\ Nodes("unwrap") = TokensIn({"~"})
      /\ Nodes("enum") = TokensIn({"&"})
      /\ Nodes("tag") = TokensIn({"#"})
      /\ Nodes("array") = TokensIn({"["})
      /\ Nodes("map") = TokensIn({"{"})
      /\ Nodes("rule") = TokensIn(AssignOps)

\* C06: brackets, independently of the machine
RECURSIVE Balanced(_, _)
Balanced(i, open) ==
    IF i > Len(toks) THEN open = <<>>
    ELSE IF toks[i].k \in Openers THEN Balanced(i + 1, Append(open, Closer(toks[i].k)))
    ELSE IF toks[i].k \in {")", "]", "}"}
    THEN open # <<>> /\ open[Len(open)] = toks[i].k /\ Balanced(i + 1, SubSeq(open, 1, Len(open) - 1))
    ELSE Balanced(i + 1, open)
NoPlace == {"ILLEGAL", "-", ".", "<", ">", "any"} \cup (ControlKinds \ (CompareOps \cup {".size", ".bits", ".regexp"}))
Inv_Faults == Fin.diags = <<>> =>
    /\ Balanced(1, <<>>)
    /\ \A i \in 1..Len(toks) : toks[i].k \notin NoPlace /\ "open" \notin toks[i].ok
\* C06, C13: diagnostics are at tokens
Inv_Places == \A i \in 1..Len(Fin.diags) : Fin.diags[i][1] \in 1..Len(toks) + 1

\* C22: whatever was wrong before, a rule after it that no operator can reach is read
Inv_Recovers == LET f == Completed(toks, st)[2] IN
    "zz" \in DOMAIN f.env /\ \E i \in 1..Len(f.out) : Kind(f.out[i]) = "rule" /\ Text(Kids(f.out[i])[1]) = "zz"

\* C09: without its comments the source means the same
NoComments == SelectSeq(toks, LAMBDA t : t.k # "COMMENT")
RECURSIVE Plain(_)
Plain(n) == <<Kind(n), IF Kind(n) = "rule" THEN "" ELSE Text(n),
              LET ks == SelectSeq(Kids(n), LAMBDA c : Kind(c) # "comment") IN [i \in 1..Len(ks) |-> Plain(ks[i])]>>
PlainRules(out) == LET rs == SelectSeq(out, LAMBDA n : Kind(n) = "rule") IN [i \in 1..Len(rs) |-> Plain(rs[i])]
Inv_Comments == LET f == Parse(NoComments) IN
    /\ PlainRules(f.out) = PlainRules(Fin.out)
    /\ Len(f.diags) = Len(Fin.diags)
    /\ \A i \in 1..Len(f.diags) : f.diags[i][2] = Fin.diags[i][2]
\* C09: every comment is in the tree, unless it is inside a rule
Inv_CommentOrder == LET cs == SelectSeq(Fin.out, LAMBDA n : Kind(n) = "comment") IN
    \A i \in 1..Len(cs) : /\ toks[Start(cs[i])].k = "COMMENT"
                          /\ i > 1 => Start(cs[i - 1]) < Start(cs[i])
=============================================================================
