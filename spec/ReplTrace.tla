----------------------------- MODULE ReplTrace -----------------------------
(***************************************************************************)
(* Trace validation of recorded interactive sessions.  A record is the     *)
(* lines of a session, each with what was answered: for a source how many  *)
(* diagnostics, how often each name is in one, and the names listed; for   *)
(* :tree the names it knew.                                                *)
(***************************************************************************)
EXTENDS CddlParse, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, p, env, pv, res
Rec == Trace[i]
Typed == Rec.items[p + 1]
Tok(t) == [k |-> t.k, v |-> t.v, ok |-> {t.ok[x] : x \in 1..Len(t.ok)}, sl |-> t.sl]
SyntaxClasses == {"name", "assign", "operand", "left", "right", "range-end", "tag", "number", "bound", "tag-number", "lex"}
Mentioned(n) == LET S == {j \in 1..Len(Typed.mentions) : Typed.mentions[j][1] = n} IN IF S = {} THEN 0 ELSE Typed.mentions[CHOOSE j \in S : TRUE][2]
Wanted(f, n) == Cardinality({j \in 1..Len(f.diags) : f.diags[j][2] \in {"undef", "dup"} /\ Typed.toks[f.diags[j][1]].v = n})
\* what is wrong about an answer, "" if nothing
Source(f) ==
    LET syntax == \E j \in 1..Len(f.diags) : f.diags[j][2] \in SyntaxClasses
        names == {Typed.toks[f.diags[j][1]].v : j \in {h \in 1..Len(f.diags) : f.diags[h][2] \in {"undef", "dup"}}}
        rules == SelectSeq(f.out, LAMBDA n : Kind(n) = "rule")
        listed == [j \in 1..Len(rules) |-> Text(Kids(rules[j])[1])]
    IN IF syntax /\ Typed.diags = 0 THEN "a faulty line is not diagnosed"
       ELSE IF ~ syntax /\ Typed.diags # Len(f.diags) THEN "the number of diagnostics, expected " \o ToString(f.diags)
       ELSE IF \E n \in names : Mentioned(n) < Wanted(f, n) THEN "names that should be reported are not: " \o ToString(f.diags)
       ELSE IF ~ pv /\ Typed.listed # <<>> THEN "rules are listed, but that is off"
       ELSE IF pv /\ ~ syntax /\ Typed.listed # listed THEN "the listing, expected " \o ToString(listed)
       ELSE ""
Tree == LET known == SelectSeq(Typed.names, LAMBDA n : n \in DOMAIN env) IN
        IF Typed.shown = known THEN "" ELSE "the names shown, expected " \o ToString(known)
Init == i \in 1..Len(Trace) /\ p = 0 /\ env = NoEnv /\ pv = FALSE /\ res = ""
Next == /\ p < Len(Rec.items) /\ res = "" /\ p' = p + 1 /\ i' = i
        /\ CASE Typed.c = "src" -> LET f == ParseIn(env, [j \in 1..Len(Typed.toks) |-> Tok(Typed.toks[j])]) IN env' = f.env /\ pv' = pv /\ res' = Source(f)
             [] Typed.c = "pv" -> pv' = ~ pv /\ UNCHANGED <<env, res>>
             [] Typed.c = "tree" -> res' = Tree /\ UNCHANGED <<env, pv>>
             [] OTHER -> UNCHANGED <<env, pv, res>>
RSpec == Init /\ [][Next]_<<i, p, env, pv, res>>
Judged == /\ (res # "") => PrintT("REJECT " \o ToString(i) \o " line " \o ToString(p) \o ": " \o res)
          /\ (res = "" /\ p = Len(Rec.items)) => PrintT("ACCEPT " \o ToString(i))
=============================================================================
