----------------------------- MODULE ParseTrace -----------------------------
(***************************************************************************)
(* Trace validation of recorded parses.  A record is the tokens of a       *)
(* source, the tree, the tokens the diagnostics are at, and the names      *)
(* defined.  The parser machine reads the tokens one per step; at the end  *)
(* what it has must be what was recorded.                                  *)
(* Prints ACCEPT <record>, or REJECT <property> <record> <what>.           *)
(***************************************************************************)
EXTENDS CddlParse, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, p, st
vars == <<i, p, st>>
Rec == Trace[i]
Toks == Rec.toks
Tok(j) == [k |-> Toks[j].k, v |-> Toks[j].v, ok |-> {Toks[j].ok[x] : x \in 1..Len(Toks[j].ok)}, sl |-> Toks[j].sl]

SyntaxClasses == {"name", "assign", "operand", "left", "right", "range-end", "tag", "number", "bound", "tag-number", "lex"}

\* a node as it is recorded
Whole == Rec.diags = <<>>
RECURSIVE Recorded(_)
Recorded(n) ==
    LET k == Kind(n)
        num == Start(n) > 0 /\ Toks[Start(n)].k \in {"INT", "FLOAT"}
        v == CASE k \in {"int", "float", "intkey"} -> Toks[Start(n)].n
               [] k \in {"bound", "major"} /\ num -> Toks[Start(n)].mj
               [] k = "tagnum" -> Toks[Start(n)].tn
               [] k = "comment" -> Toks[Start(n)].v
               [] k = "rule" -> ""
               [] OTHER -> Text(n)
    IN <<CASE k \in {"bound", "major", "tagnum"} -> "uint" [] k = "intkey" -> "id" [] OTHER -> k,
         \* the tag number starts inside its token, an implied bound nowhere
         IF Whole /\ k # "tagnum" /\ ~ (k = "bound" /\ ~ num) THEN Start(n) ELSE 0, v,
         [j \in 1..Len(Kids(n)) |-> Recorded(Kids(n)[j])]>>
\* and without what the record does not tell
RECURSIVE Plain(_, _)
Plain(n, w) == \* w: the node of the specification, for the positions that matter
    <<Kind(n), IF Start(w) = 0 THEN 0 ELSE Start(n), Text(n),
      [j \in 1..Len(Kids(n)) |-> IF j <= Len(Kids(w)) THEN Plain(Kids(n)[j], Kids(w)[j]) ELSE Kids(n)[j]]>>

Rules(out) == SelectSeq(out, LAMBDA n : Kind(n) = "rule")
Comments(out) == SelectSeq(out, LAMBDA n : Kind(n) = "comment")

Reject(prop, why) == PrintT("REJECT " \o prop \o " " \o ToString(i) \o " " \o why)
\* the first entry that differs
RECURSIVE Same(_, _)
Same(w, g) == Len(w) = Len(g) /\ \A j \in 1..Len(w) : w[j] = Plain(g[j], w[j])

RECURSIVE CountIn(_, _)
CountIn(s, x) == IF s = <<>> THEN 0 ELSE (IF Head(s) = x THEN 1 ELSE 0) + CountIn(Tail(s), x)
Judge(f) ==
    LET want == [j \in 1..Len(f.out) |-> Recorded(f.out[j])]
        wd == [j \in 1..Len(f.diags) |-> f.diags[j][1]]
        classes == {f.diags[j][2] : j \in 1..Len(f.diags)}
        syntax == classes \cap SyntaxClasses # {}
        tree == Same(want, Rec.out)
        diags == \A x \in {wd[j] : j \in 1..Len(wd)} \cup {Rec.diags[j] : j \in 1..Len(Rec.diags)} :
                    CountIn(wd, x) = CountIn(Rec.diags, x)
        env == DOMAIN f.env = {Rec.env[j] : j \in 1..Len(Rec.env)}
        first == IF syntax THEN CHOOSE j \in 1..Len(f.diags) : f.diags[j][2] \in SyntaxClasses
                                   /\ \A h \in 1..j - 1 : f.diags[h][2] \notin SyntaxClasses ELSE 0
    IN /\ (syntax /\ f.diags[first][2] \notin {"number", "bound", "tag-number"} /\ CountIn(Rec.diags, wd[first]) = 0)
             => Reject("C06", "the first fault is not diagnosed")
       /\ (f.diags = <<>> /\ Rec.diags # <<>>) => Reject("C07", "diagnostics")
       /\ (f.diags = <<>> /\ Rec.diags = <<>> /\ ~ tree) => Reject("C08", "the tree")
       /\ (f.diags = <<>> /\ Rec.diags = <<>> /\ ~ tree) => Reject("C13", "the tree and its positions")
       /\ (classes = {"undef"} /\ ~ diags) => Reject("C10", "the diagnostics")
       /\ (\A x \in {Rec.diags[j] : j \in 1..Len(Rec.diags)} : x > 0) \/ Reject("C13", "a diagnostic is at no token")
       /\ (~ syntax /\ ~ env) => Reject("C11", "the definitions")
       /\ (syntax /\ ~ (diags /\ env /\ Same(Rules(want), Rules(Rec.out)))) => Reject("C22", "the other rules")
       /\ (~ tree) => Reject("C09", "the comments or the tree")
       /\ (tree /\ diags /\ env) => PrintT("ACCEPT " \o ToString(i))

Init == i \in 1..Len(Trace) /\ p = 0 /\ st = ParseInit(NoEnv)
Next == \/ p < Len(Toks) /\ p' = p + 1 /\ i' = i /\ st' = Step(st, Tok(p + 1))
        \/ p = Len(Toks) /\ p' = p + 1 /\ i' = i /\ st' = Eof(st) /\ Judge(st')
Spec == Init /\ [][Next]_vars
=============================================================================
