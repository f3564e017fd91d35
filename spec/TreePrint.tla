------------------------------ MODULE TreePrint ------------------------------
(***************************************************************************)
(* The printed form of a syntax tree, as a machine that tells one fact at  *)
(* a time: what kind of node it is, its own name, number, keyword or count *)
(* of entries, and where it is.  Choices and enumerations are followed by  *)
(* what they are made of; of every other node nothing below is told.       *)
(* Nodes are <<kind, place, text, children>>.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Opened(n) == n[1] \in {"choice", "enum"}
FloatTypes == {"float", "float16", "float32", "float64"}
\* the kinds that are told with what they are about and where they are
Full(n) == n[1] \in {"id", "choice", "int", "float", "enum", "group"} \/ (n[1] = "type" /\ n[3] \in {"int"} \cup FloatTypes)
About(n) == CASE n[1] = "group" -> ToString(Len(n[4]))
              [] n[1] \in {"choice", "enum"} -> ""
              [] OTHER -> n[3]
\* the other types and operators have a kind of their own
Sort(n) == CASE n[1] = "type" /\ n[3] \in {"tstr", "text"} -> "tstr"
             [] n[1] = "type" /\ n[3] \in {"null", "nil"} -> "null"
             [] n[1] = "type" -> n[3]
             [] n[1] = "control" /\ n[3] \notin {".size", ".bits", ".regexp"} -> "compare"
             [] n[1] = "control" -> n[3]
             [] OTHER -> ""
Fact(n) == IF Full(n) THEN <<n[1], About(n), n[2]>> ELSE <<n[1], Sort(n), 0>>

Printing(n) == [todo |-> <<n>>, told |-> <<>>]
Printed(s) == s.todo = <<>>
Tell(s) == LET n == Head(s.todo) IN
    [todo |-> (IF Opened(n) THEN n[4] ELSE <<>>) \o Tail(s.todo), told |-> Append(s.told, Fact(n))]
=============================================================================
