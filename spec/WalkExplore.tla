---------------------------- MODULE WalkExplore ----------------------------
(***************************************************************************)
(* Walks over every tree of the grammar, with and without comments, for    *)
(* every choice of nodes to decline (up to a number).                      *)
(***************************************************************************)
EXTENDS CddlGrammar, CddlWalk
CONSTANTS MaxDeclines, Comments, MinGrow

VARIABLES ph, toks, root, w, nd
wvars == <<tr, d, ph, toks, root, w, nd>>

DefEnv == Parse(DefToks).env
Alone == RuleToks \o <<Id("$z"), T("//="), Id("$z")>>
Sources == IF Comments THEN {WithComment(Alone, i, c) : i \in 0..Len(Alone), c \in {Rem(" c"), RemLn("d ")}} ELSE {Alone}
Sound(ts) == \A i \in 1..Len(ts) : ts[i].k = "COMMENT" => Feasible(SubSeq(ts, 1, i - 1), ts[i])

WInit == Init /\ ph = "grow" /\ toks = <<>> /\ root = <<>> /\ w = Begin(<<"none", 0, "", <<>>>>) /\ nd = 0
Grow == ph = "grow" /\ Next /\ UNCHANGED <<ph, toks, root, w, nd>>
StartWalk == /\ ph = "grow" /\ d >= MinGrow
         /\ \E ts \in Sources :
              LET r == ParseIn(DefEnv, ts)  t == Renumber(<<"cddl", 0, "", r.out>>, 1) IN
              /\ Sound(ts) /\ r.diags = <<>>
              /\ ph' = "walk" /\ toks' = ts /\ root' = t /\ w' = Begin(t)
         /\ UNCHANGED <<tr, d, nd>>
Walking == /\ ph = "walk"
           /\ \/ AtNode(w) /\ w' = Enter(w) /\ nd' = nd
              \/ AtNode(w) /\ nd < MaxDeclines /\ w' = Decline(w) /\ nd' = nd + 1
              \/ AtEnd(w) /\ w' = Close(w) /\ nd' = nd
           /\ UNCHANGED <<tr, d, ph, toks, root>>
WNext == Grow \/ StartWalk \/ Walking
WSpec == WInit /\ [][WNext]_wvars
\* a finished walk is over for good
Done == ph = "walk" /\ Ended(w)

Inv_Lawful == Done => Lawful(root, w.log)
Inv_NoEnd == ph = "walk" => Len(w.log) <= 2 * Size(root)
EmittedWalk == Done => PrintT("CASE " \o ToJson([pre |-> [i \in 1..Len(DefToks) |-> TokJson(DefToks[i])],
                          toks |-> [i \in 1..Len(toks) |-> TokJson(toks[i])], out |-> root[4], log |-> w.log]))
=============================================================================
