-------------------------- MODULE GenerateExplore --------------------------
(***************************************************************************)
(* All scenarios of a family: what is at each path, the configurations,    *)
(* then one or more runs with a change between them.  Each scenario is     *)
(* printed with what has to be there after every run.                      *)
(***************************************************************************)
EXTENDS Generate, Json
CONSTANTS Family, MaxRuns, MaxBuilds,
          Want         \* print scenarios with a run that ends so, "" for all

\* contents of definition files
Quality == [g1 |-> "good", g2 |-> "good", g3 |-> "good", big |-> "good", empty |-> "good",
            lexical |-> "diagnosed", syntax |-> "diagnosed", undef |-> "diagnosed", unsup |-> "unsupported"]
None == Node("none", "", "", "")
RO(of) == Node("file", of, "", "ro")
NO(of) == Node("file", of, "", "no")
Dangling == Node("dangling", "", "", "")
Full == Node("full", "", "", "")
Sealed == Node("sealed", "", "", "")
Closed == Node("closed", "", "", "")
Broken == {File("lexical"), File("syntax"), File("undef"), File("unsup"), NO("g1"), Dir, Dangling}
Sources == {None, File("g1"), File("g2"), File("big"), File("empty")} \cup Broken
Old == {None, File("old"), File("long"), RO("old"), NO("old"), Dir, Full}
Some(x) == {None, File(x)}
Some6(i, x) == IF Family = "allnames" \/ i \in {1, 2, 4, 5, 8, 12} THEN Some(x) ELSE {File(x)}  \* the others are there and no definition files
BadConfigs == {"bad:truncated", "bad:type", "bad:trailing", "bad:empty", "bad:nullbuild", "bad:list", "bad:builds"}
InConfig(c) == Node("file", c, "", "rw")
ConfigNodes == {None, Dir, Dangling} \cup {InConfig(c) : c \in BadConfigs}
Jsons == {InConfig("J"), NO("J"), RO("J")} \cup ConfigNodes
Yamls == {InConfig("Y"), NO("Y"), RO("Y")} \cup ConfigNodes

S(p, o) == <<p, o>>
WithJ == <<S(<<"cddlc.json">>, {InConfig("J")})>>
Keep == <<S(<<"out", "keep.txt">>, Some("old")), S(<<"out", "src.cddl">>, Some("g1"))>>
Slots == CASE
    Family = "files" -> WithJ \o <<S(<<"src">>, {Dir}), S(<<"src", "a.cddl">>, Sources), S(<<"src", "b.cddl">>, {None, File("g2"), File("syntax"), NO("g1")}),
          S(<<"src", "note.txt">>, {File("old")}), S(<<"out">>, {None, Dir, Sealed, Closed, File("old"), Dangling}),
          S(<<"out", "a.go">>, Old), S(<<"out", "b.go">>, {None, File("old"), Dir}), S(<<"out", "keep.go">>, {File("old")})>>
 [] Family \in {"names", "allnames"} -> WithJ \o <<S(<<"src">>, {Dir})>> \o [i \in 1..12 |-> S(<<"src", <<".cddl", "A.cddl", "B.CDDL", "a b.cddl", "a.cddl", "a.cddl.bak", "a.go", "a.x.cddl", "acddl", "cddl", "b.cddl~", "-z.cddl">>[i]>>,
          Some6(i, <<"g1", "g2", "syntax", "g3", "g1", "lexical", "old", "big", "syntax", "unsup", "undef", "empty">>[i]))]
          \o <<S(<<"src", "sub">>, {Dir}), S(<<"src", "sub", "in.cddl">>, {File("syntax")}), S(<<"out">>, {None, Dir}), S(<<"out", "in.go">>, {None, File("old")})>>
 [] Family = "builds" -> WithJ \o <<S(<<"src">>, {Dir}), S(<<"src", "a.cddl">>, {File("g1")}), S(<<"src", "c.cddl">>, {None, File("g2"), File("unsup")}),
          S(<<"two">>, {None, Dir, File("old")}), S(<<"two", "a.cddl">>, {File("g3")}), S(<<"two", "d.cddl">>, {None, File("undef")}),
          S(<<"gen">>, {None}), S(<<"w.cddl">>, {None, File("big")})>>
 [] Family = "config" -> <<S(<<"cddlc.json">>, Jsons), S(<<"cddlc.yaml">>, Yamls), S(<<"cddlc.yml">>, {None, InConfig("Z")}), S(<<"CDDLC.JSON">>, {InConfig("Z")}),
          S(<<"xcddlc.json">>, {None, InConfig("Z")}), S(<<"cddlc.json.bak">>, {InConfig("bad:type")}), S(<<"src">>, {Dir}), S(<<"src", "a.cddl">>, {File("g1")}),
          S(<<"src", "cddlc.json">>, {InConfig("Z")}), S(<<"two">>, {Dir}), S(<<"two", "a.cddl">>, {File("g2")}), S(<<"r.cddl">>, {None, File("g3"), File("syntax")}), S(<<"dist">>, {None, Dir})>>
 [] Family = "dirs" -> <<S(<<>>, {Sealed, Dir})>> \o WithJ \o <<S(<<"src">>, {None, Dir, Sealed, Closed, File("old"), Dangling}), S(<<"src", "a.cddl">>, {None, File("g1"), File("lexical")}),
          S(<<"src", "b.cddl">>, {None, File("g2")}),
          S(<<"gen">>, {None, Dir, Sealed, Closed, File("old"), Dangling}), S(<<"gen", "deep">>, {None, Dir, Sealed, Closed, File("old"), Dangling}),
          S(<<"gen", "deep", "a.go">>, {None, File("old"), Dir})>>
 [] Family = "again" -> WithJ \o <<S(<<"src">>, {Dir}), S(<<"src", "a.cddl">>, {File("g1"), File("big")}), S(<<"src", "b.cddl">>, {None, File("g2")}), S(<<"out">>, {None}), S(<<"out", "a.go">>, {None})>>
 [] Family = "any" -> <<S(<<>>, {Dir, Dir, Sealed}), S(<<"cddlc.json">>, {None, InConfig("J"), InConfig("K")}), S(<<"cddlc.yaml">>, {InConfig("Y"), InConfig("J")}),
          S(<<"src">>, {Dir, Sealed}), S(<<"src", ".cddl">>, {None, File("g1")}), S(<<"src", "a.cddl">>, Sources), S(<<"src", "b.cddl">>, {None, File("g2"), File("big"), File("g3")}),
          S(<<"src", "c.cddl">>, Sources), S(<<"src", "c.go">>, Old), S(<<"src", "old.cddl.txt">>, {File("old")}), S(<<"two">>, {None, Dir, Closed, Dir}), S(<<"two", "a.cddl">>, {None, File("g1"), File("g2")}),
          S(<<"two", "z.cddl">>, Sources), S(<<"two", "a.go">>, Old), S(<<"w.cddl">>, {None, File("g3"), File("empty")}), S(<<"w.go">>, Old), S(<<"out">>, {None, Dir, Dir, Sealed, Closed, File("old"), Dangling}),
          S(<<"out", "a.go">>, Old), S(<<"out", "b.go">>, Old), S(<<"out", "c.go">>, Old), S(<<"out", "z.go">>, {None, File("long")}), S(<<"out", "keep.go">>, {File("old")}),
          S(<<"gen">>, {None, Dir, Sealed}), S(<<"gen", "deep">>, {None, Dir, File("old")}), S(<<"gen", "deep", "a.go">>, Old), S(<<"dist">>, {None, Dir}), S(<<"dist", "a.go">>, {None, File("old")})>>

Bld(s, o, p) == [src |-> s, out |-> o, pkg |-> p]
BuildSrcs == {<<"src">>, <<"two">>, <<>>}
BuildOuts == {<<"out">>, <<"gen", "deep">>, <<>>, <<"src">>, <<"two">>}
Pkgs == <<"p1", "p2", "p3", "p4">>
OneBuild == [J |-> <<Bld(<<"src">>, <<"out">>, "p1")>>]
Configs0 == CASE Family \in {"files", "names", "allnames", "again"} -> OneBuild
            [] Family = "config" -> [J |-> <<Bld(<<"src">>, <<"out">>, "p1")>>, Y |-> <<Bld(<<"two">>, <<"gen", "deep">>, "p2")>>, Z |-> <<Bld(<<"src">>, <<"two">>, "p3")>>]
            [] Family = "dirs" -> [J |-> <<Bld(<<"src">>, <<"gen", "deep">>, "p1")>>]
            [] OTHER -> [J |-> <<>>, K |-> <<>>, Y |-> <<>>]
Choosing == IF Family = "builds" THEN {"J"} ELSE IF Family = "any" THEN {"J", "K", "Y"} ELSE {}

VARIABLES slot, runs, first, hist
all == <<vars, slot, runs, first, hist>>
Init == /\ fs = (<<>> :> Dir) /\ configs = Configs0 /\ quality = Quality
        /\ phase = "setup" /\ builds = <<>> /\ b = 0 /\ todo = <<>> /\ result = "" /\ notice = FALSE /\ wrote = <<>>
        /\ slot = 0 /\ runs = 0 /\ first = <<>> /\ hist = <<>>
Pick == /\ phase = "setup" /\ slot < Len(Slots)
        /\ LET p == Slots[slot + 1][1] IN
           \E n \in Slots[slot + 1][2] :
             fs' = IF n = None \/ (p # <<>> /\ Kind(Parent(p)) \notin DirKinds) THEN fs ELSE (p :> n) @@ fs
        /\ slot' = slot + 1 /\ UNCHANGED <<configs, quality, phase, builds, b, todo, result, notice, wrote, runs, first, hist>>
\* builds are added to the configurations in order
AddBuild == /\ phase = "setup" /\ slot = Len(Slots)
            /\ \E c \in Choosing, s \in BuildSrcs, o \in BuildOuts :
                 /\ Len(configs[c]) < MaxBuilds
                 /\ \A d \in Choosing : d # c => Len(configs[d]) <= Len(configs[c])
                 /\ configs' = [configs EXCEPT ![c] = Append(@, Bld(s, o, Pkgs[Len(@) + 1]))]
            /\ UNCHANGED <<fs, quality, phase, builds, b, todo, result, notice, wrote, slot, runs, first, hist>>
Snapshot == {<<p, fs[p]>> : p \in DOMAIN fs}
Go == /\ phase = "setup" /\ slot = Len(Slots) /\ Restart /\ first' = Snapshot /\ UNCHANGED <<fs, configs, quality, slot, runs, hist>>
\* between runs something changes
Change == /\ phase = "end" /\ runs < MaxRuns /\ runs + 1 < MaxRuns
          /\ \E i \in 0..Len(Slots) : \E n \in (IF i = 0 THEN {None} ELSE Slots[i][2] \cup {None, File("g3"), File("syntax"), File("unsup")}) :
               LET p == IF i = 0 THEN <<"nothing">> ELSE Slots[i][1] IN
               /\ i > 0 => (p # <<>> /\ p[1] \notin {"cddlc.json", "cddlc.yaml"} /\ Len(p) > 1 /\ p \notin {q \in DOMAIN fs : Entries(q) # {}} /\ Kind(Parent(p)) \in DirKinds /\ n # (IF Has(p) THEN fs[p] ELSE None))
               /\ fs' = IF n = None THEN [q \in DOMAIN fs \ {p} |-> fs[q]] ELSE (p :> n) @@ fs
               /\ hist' = Append(hist, [result |-> result, notice |-> notice, after |-> Snapshot, path |-> p, node |-> n])
          /\ runs' = runs + 1 /\ Restart /\ UNCHANGED <<configs, quality, slot, first>>
Next == Pick \/ AddBuild \/ Go \/ Change \/ (phase \notin {"setup", "end"} /\ Step /\ UNCHANGED <<slot, runs, first, hist>>)
GSpec == Init /\ [][Next]_all

(***************************************************************************)
(* What the properties say, without the steps.                             *)
(***************************************************************************)
Then(s) == [p \in {x[1] : x \in s} |-> (CHOOSE x \in s : x[1] = p)[2]]
Begun == IF hist = <<>> THEN Then(first)
         ELSE LET h == hist[Len(hist)] f == Then(h.after) IN
              IF h.node = None THEN [q \in DOMAIN f \ {h.path} |-> f[q]] ELSE (h.path :> h.node) @@ f
Over == phase = "end"
\* the definition files in the order they are due
RECURSIVE Due(_)
Due(i) == IF i > Len(builds) THEN <<>>
          ELSE LET n == Sorted({x \in Entries(builds[i].src) : IsDefinition(x)}) IN
               [k \in 1..Len(n) |-> <<Append(builds[i].src, n[k]), Append(builds[i].out, GoName(n[k])), builds[i].pkg>>] \o Due(i + 1)
Wanted(due, n) == \* what the first n of them have written
    LET W == {due[i][2] : i \in 1..n} IN
    [p \in W |-> LET l == CHOOSE i \in 1..n : due[i][2] = p /\ \A j \in i + 1..n : due[j][2] # p IN Code(fs[due[l][1]].of, due[l][3])]
IsFile(f, p) == p \in DOMAIN f /\ f[p].k \in {"file", "code", "dangling", "full"}
Files(f) == {p \in DOMAIN f : IsFile(f, p)}
\* C16: a run that succeeds has written every file, and nothing else
Inv_Complete == (Over /\ result = "ok") =>
    LET d == Due(1) w == Wanted(d, Len(d)) IN
    /\ \A i \in 1..Len(d) : fs[d[i][1]].k = "file" /\ quality[fs[d[i][1]].of] = "good"
    /\ \A p \in DOMAIN w : fs[p] = w[p]
    /\ Files(fs) = Files(Begun) \cup DOMAIN w
    /\ \A p \in Files(fs) \ DOMAIN w : fs[p] = Begun[p]
    /\ DOMAIN Begun \subseteq DOMAIN fs
\* C17: a run that fails has written what was due before, completely, and nothing else
Inv_Failure == (Over /\ result = "fail") =>
    LET d == Due(1) IN
    \E n \in 0..Len(d) : /\ n = Len(wrote)
                         /\ LET w == Wanted(d, n) IN
                            /\ Files(fs) = Files(Begun) \cup DOMAIN w
                            /\ \A p \in Files(fs) : fs[p] = IF p \in DOMAIN w THEN w[p] ELSE Begun[p]
                            /\ DOMAIN Begun \subseteq DOMAIN fs
Inv_Fails == (Over /\ \E i \in 1..Len(builds) : \E x \in Entries(builds[i].src) : IsDefinition(x) /\ LET p == Append(builds[i].src, x) IN
                 fs[p].k # "file" \/ fs[p].mode = "no" \/ quality[fs[p].of] # "good") => result = "fail"
\* C18
Inv_Config == (Over /\ builds # <<>>) =>
    /\ notice = (<<"cddlc.json">> \notin DOMAIN Begun /\ <<"cddlc.yaml">> \notin DOMAIN Begun)
    /\ <<"cddlc.json">> \in DOMAIN Begun => (Begun[<<"cddlc.json">>].of \in DOMAIN configs /\ builds = configs[Begun[<<"cddlc.json">>].of])
Inv_BadConfig == (Over /\ <<"cddlc.json">> \in DOMAIN Begun /\ ~(Begun[<<"cddlc.json">>].k = "file" /\ Begun[<<"cddlc.json">>].mode # "no" /\ Begun[<<"cddlc.json">>].of \in DOMAIN configs))
                 => (result = "fail" /\ fs = Begun /\ ~ notice)
\* never is a definition file or anything that is not due touched, in no state
Inv_Sources == (phase # "setup" /\ phase # "end") => \A p \in Files(Begun) : (~ EndsWith(p[Len(p)], ".go")) => (p \in DOMAIN fs /\ fs[p] = Begun[p])

Wanting == Want = "" \/ result = Want \/ \E i \in 1..Len(hist) : hist[i].result = Want
Emitted == (Over /\ runs + 1 = MaxRuns /\ Wanting) =>
    PrintT("CASE " \o ToJson([first |-> first, configs |-> [c \in DOMAIN configs |-> configs[c]],
                              runs |-> Append(hist, [result |-> result, notice |-> notice, after |-> Snapshot])]))
=============================================================================
