----------------------------- MODULE ParseCases -----------------------------
(***************************************************************************)
(* Tokens, alphabets and the form in which cases are printed.              *)
(***************************************************************************)
EXTENDS CddlParse, Json

T(k)      == [k |-> k, v |-> "", ok |-> {}, sl |-> FALSE]
Id(x)     == [k |-> "IDENT", v |-> x, ok |-> {}, sl |-> FALSE]
Num(x)    == [k |-> "INT", v |-> x, ok |-> {"i", "u"}, sl |-> FALSE]
BigInt    == [k |-> "INT", v |-> "9223372036854775808", ok |-> {"u"}, sl |-> FALSE]
BadInt    == [k |-> "INT", v |-> "99999999999999999999", ok |-> {}, sl |-> FALSE]
Float(x)  == [k |-> "FLOAT", v |-> x, ok |-> {"f", "t"}, sl |-> FALSE]
BadFloat  == [k |-> "FLOAT", v |-> "1.2.3", ok |-> {}, sl |-> FALSE]
Txt(x)    == [k |-> "TEXT", v |-> x, ok |-> {}, sl |-> FALSE]
OpenText  == [k |-> "TEXT", v |-> "open", ok |-> {"open"}, sl |-> FALSE]
Ill(x)    == [k |-> "ILLEGAL", v |-> x, ok |-> {}, sl |-> FALSE]
Rem(x)    == [k |-> "COMMENT", v |-> x, ok |-> {}, sl |-> TRUE]   \* on the line of the token before
RemLn(x)  == [k |-> "COMMENT", v |-> x, ok |-> {}, sl |-> FALSE]  \* on a line of its own

Ts(ks) == {T(k) : k \in ks}

Operators == {"=", "/=", "//=", "=>", ":", ",", "/", "//", "?", "*", "+", "~", "&", "#", "..", "..."}
Brackets == {"(", ")", "[", "]", "{", "}"}
Junk == {"-", ".", "<", ">", "any"}

(***************************************************************************)
(* A prefix of a source completed to a well-formed one as cheaply as       *)
(* possible: every operator gets an operand, every bracket its closer.     *)
(***************************************************************************)
InnermostOpen(stk) ==
    LET S == {i \in 1..Len(stk) : stk[i].f \in Openers \cup {"#"}} IN
    IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
CompletionToken(st) ==
    CASE st.m = "assign" -> T("=")
      [] st.m \in {"nud", "occ"} ->
           IF Top(st).f \in RangeOps THEN IF Kind(Top(st).kids[1]) = "float" THEN Float("9.5") ELSE Num("77")
           ELSE T("tstr")
      [] st.m = "regexp" -> Txt("r")
      [] st.m = "cmp" -> Num("7")
      [] st.m = "item" -> T(Closer(Top(st).f))
      [] st.m \in {"led", "comma", "tag", "tag2"} ->
           LET stk == IF st.m \in {"tag", "tag2"} THEN SubSeq(st.stk, 1, Len(st.stk) - 1) ELSE st.stk
               k == InnermostOpen(stk) IN
           IF k = 0 THEN T("EOF") ELSE IF stk[k].f = "#" THEN T(")") ELSE T(Closer(stk[k].f))
      [] OTHER -> T("EOF")
RECURSIVE Completion(_)
Completion(st) == LET t == CompletionToken(st) IN
                  IF t.k = "EOF" THEN <<>> ELSE <<t>> \o Completion(Step(st, t))

\* a comment can follow a token on its line unless that is a comment or an open text literal
Feasible(toks, t) ==
    (t.k = "COMMENT" /\ t.sl) => /\ toks # <<>>
                                /\ toks[Len(toks)].k # "COMMENT"
                                /\ "open" \notin toks[Len(toks)].ok

Envs(st) == SetToSeq({<<x, st.env[x]>> : x \in DOMAIN st.env})
TokJson(t) == IF t.k = "COMMENT" \/ t.ok = {"open"} THEN t ELSE [k |-> t.k, v |-> t.v]
Line(toks, fin) == [toks |-> [i \in 1..Len(toks) |-> TokJson(toks[i])], out |-> fin.out, diags |-> fin.diags,
                    env |-> Envs(fin)]
PrintCase(lines) == PrintT("CASE " \o ToJson([s |-> lines]))
=============================================================================
