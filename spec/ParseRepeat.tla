---------------------------- MODULE ParseRepeat ----------------------------
(***************************************************************************)
(* Sources that say the same again and again: what the machine does with   *)
(* the third and fourth time is what it did with the second, so what it    *)
(* does with the thousandth is known.  Faults do not add up: there is no   *)
(* number of them after which the rest is read differently.                *)
(* Printed: the part that is repeated, what follows, and what is found in  *)
(* the first, in the second and in what follows.                           *)
(***************************************************************************)
EXTENDS ParseNames

End == One("zz", <<T("["), Id("a"), T("]")>>, "other").toks
Body == lines[1]
B == Toks(Body)
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)

\* what was found from token lo to token hi, counted from d
RECURSIVE Shifted(_, _)
Shifted(n, d) == <<n[1], IF n[2] = 0 THEN 0 ELSE n[2] - d, n[3], [j \in 1..Len(n[4]) |-> Shifted(n[4][j], d)]>>
Part(f, lo, hi) ==
    LET out == SelectSeq(f.out, LAMBDA n : Start(n) > lo /\ Start(n) <= hi)
        ds == SelectSeq(f.diags, LAMBDA x : x[1] > lo /\ x[1] <= hi)
    IN [out |-> [j \in 1..Len(out) |-> Shifted(out[j], lo)], diags |-> [j \in 1..Len(ds) |-> <<ds[j][1] - lo, ds[j][2]>>]]
Of(f, k) == Part(f, (k - 1) * Len(B), k * Len(B))
After(f, k) == Part(f, k * Len(B), k * Len(B) + Len(End) + 1)

F3 == ParseIn(NoEnv, Times(B, 3) \o End)
F4 == ParseIn(NoEnv, Times(B, 4) \o End)
RECURSIVE Plain(_)
Plain(n) == <<n[1], n[3], [j \in 1..Len(n[4]) |-> Plain(n[4][j])]>>
Bare(env) == [x \in DOMAIN env |-> Plain(env[x])]
Periodic == LET f == F3 g == F4 IN
    /\ Of(f, 1) = Of(g, 1) /\ Of(f, 2) = Of(g, 2) /\ Of(f, 2) = Of(f, 3) /\ Of(g, 3) = Of(g, 4) /\ Of(f, 3) = Of(g, 3)
    /\ After(f, 3) = After(g, 4) /\ Bare(f.env) = Bare(g.env)
\* every source of rules settles: an end of a part that takes the next with it would not
Inv_Periodic == (Body # <<>> /\ \A j \in 1..Len(Body) : ~ Body[j].eats) => Periodic
\* the definition after any number of faults counts
Inv_Last == (Body # <<>> /\ ~ Fails(Body[Len(Body)])) => /\ "zz" \in DOMAIN F4.env
                                                         /\ Rules(After(F4, 4).out) # <<>>
REmitted == (Body # <<>> /\ Periodic) =>
    LET f == F3 IN
    PrintT("CASE " \o ToJson([body |-> [j \in 1..Len(B) |-> TokJson(B[j])], end |-> [j \in 1..Len(End) |-> TokJson(End[j])],
                              first |-> Of(f, 1), again |-> Of(f, 2), after |-> After(f, 3), env |-> Envs(f)]))
=============================================================================
