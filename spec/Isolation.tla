----------------------------- MODULE Isolation -----------------------------
(***************************************************************************)
(* Scanners, parsers and generators of several sources, one operation of   *)
(* one of them at a time in any order.  The sources are parts of one piece *)
(* of the caller's memory, next to each other, overlapping or the same.    *)
(* An instance takes a copy of its part when it is made and works on that; *)
(* what an operation returns depends on the copy and on how many           *)
(* operations came before on the same instance.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Instances, Layouts

Program == [scanner |-> <<"new", "scan", "scan", "drain">>, parser |-> <<"new", "parse", "show">>,
            sharing |-> <<"new", "parse", "show">>, generator |-> <<"new", "parse", "visit", "string">>]
Blank == 0
\* where the sources lie in the caller's memory: <<from, to>>
Parts(layout) == CASE layout = "apart" -> <<<<1, 2>>, <<4, 5>>, <<7, 8>>>>
                   [] layout = "adjacent" -> <<<<1, 2>>, <<3, 4>>, <<5, 6>>>>
                   [] layout = "same" -> <<<<1, 3>>, <<1, 3>>, <<1, 3>>>>
                   [] layout = "inside" -> <<<<1, 6>>, <<1, 3>>, <<1, 2>>>>
Memory == [c \in 1..9 |-> c]

VARIABLES layout, kind, mem, copy, pc, out, hist
vars == <<layout, kind, mem, copy, pc, out, hist>>
Is == 1..Instances
Init == /\ layout \in Layouts /\ kind \in [Is -> Kinds]
        /\ mem = Memory /\ copy = [i \in Is |-> <<>>] /\ pc = [i \in Is |-> 0] /\ out = [i \in Is |-> <<>>] /\ hist = <<>>
Part(i) == SubSeq(mem, Parts(layout)[i][1], Parts(layout)[i][2])
Do(i) == /\ pc[i] < Len(Program[kind[i]])
         /\ LET op == Program[kind[i]][pc[i] + 1] IN
            /\ copy' = [copy EXCEPT ![i] = IF op = "new" THEN Append(Part(i), Blank) ELSE @]
            /\ out' = [out EXCEPT ![i] = Append(@, <<op, copy'[i], pc[i]>>)]
            /\ hist' = Append(hist, <<i, op>>)
         /\ pc' = [pc EXCEPT ![i] = @ + 1]
         /\ UNCHANGED <<layout, kind, mem>>
Next == \E i \in Is : Do(i)
Spec == Init /\ [][Next]_vars

\* the caller's memory is never written
Inv_Memory == mem = Memory
\* what instance i returns when it is all there is
Alone(i) == [k \in 1..Len(Program[kind[i]]) |-> <<Program[kind[i]][k], Append(SubSeq(Memory, Parts(layout)[i][1], Parts(layout)[i][2]), Blank), k - 1>>]
Inv_Alone == \A i \in Is : out[i] = SubSeq(Alone(i), 1, pc[i])
Over == \A i \in Is : pc[i] = Len(Program[kind[i]])
\* symmetric schedules are printed once
Emitted == (Over /\ (layout = "same" => \A i \in 2..Instances : \E h \in 1..Len(hist) : hist[h][1] = i /\ \E g \in 1..h - 1 : hist[g][1] = i - 1)) =>
    PrintT("CASE " \o ToJson([layout |-> layout, kinds |-> [i \in Is |-> kind[i]], hist |-> hist]))
=============================================================================
