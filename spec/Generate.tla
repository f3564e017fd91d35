------------------------------ MODULE Generate ------------------------------
(***************************************************************************)
(* One run of `generate`: it looks for a configuration, and for each build *)
(* reads every definition file of the source directory and writes one Go   *)
(* file for it.  The file system is a function from paths (sequences of    *)
(* names below the working directory) to nodes:                            *)
(*   dir      a directory        sealed  one that cannot be written        *)
(*   closed   one that can neither be searched nor listed                  *)
(*   file     a file with some content, mode rw, ro or no (access at all)  *)
(*   code     what generate writes for a content and a package             *)
(*   dangling a link to nothing  full    a file whose device is full       *)
(* The run is made by an ordinary user.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES fs,        \* path -> node
          configs,   \* content of a configuration file -> <<builds>>; other contents do not load
          quality,   \* content of a definition file -> "good", "diagnosed" or "unsupported"
          phase, builds, b, todo, result, notice, wrote
vars == <<fs, configs, quality, phase, builds, b, todo, result, notice, wrote>>

Node(k, of, pkg, mode) == [k |-> k, of |-> of, pkg |-> pkg, mode |-> mode]
Dir == Node("dir", "", "", "")
File(of) == Node("file", of, "", "rw")
Code(of, pkg) == Node("code", of, pkg, "rw")
DirKinds == {"dir", "sealed", "closed"}

(***************************************************************************)
(* Names.                                                                  *)
(***************************************************************************)
Chars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* any other character comes after these
Code1(c) == IF \E i \in 1..Len(Chars) : SubSeq(Chars, i, i) = c THEN CHOOSE i \in 1..Len(Chars) : SubSeq(Chars, i, i) = c ELSE Len(Chars) + 1
RECURSIVE Before(_, _)
Before(x, y) == IF x = "" THEN y # "" ELSE IF y = "" THEN FALSE
                ELSE LET a == Code1(SubSeq(x, 1, 1)) c == Code1(SubSeq(y, 1, 1)) IN
                     IF a # c THEN a < c ELSE Before(SubSeq(x, 2, Len(x)), SubSeq(y, 2, Len(y)))
EndsWith(x, e) == Len(x) >= Len(e) /\ SubSeq(x, Len(x) - Len(e) + 1, Len(x)) = e
IsDefinition(name) == EndsWith(name, ".cddl")
GoName(name) == SubSeq(name, 1, Len(name) - 5) \o ".go"
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Before(x, y) IN <<m>> \o Sorted(S \ {m})

(***************************************************************************)
(* What the operating system answers.                                      *)
(***************************************************************************)
Has(p) == p \in DOMAIN fs
Kind(p) == IF Has(p) THEN fs[p].k ELSE "missing"
Parent(p) == SubSeq(p, 1, Len(p) - 1)
\* looking up the prefixes of p, without p itself
RECURSIVE Walk(_, _)
Walk(p, i) == IF i >= Len(p) THEN "ok"
              ELSE LET k == Kind(SubSeq(p, 1, i)) IN
                   IF k \in {"missing", "dangling"} THEN "absent"
                   ELSE IF k = "closed" THEN "denied"
                   ELSE IF k \notin DirKinds THEN "notdir"
                   ELSE Walk(p, i + 1)
Reach(p) == Walk(p, 0)
Stat(p) == IF Reach(p) # "ok" THEN Reach(p) ELSE IF Kind(p) \in {"missing", "dangling"} THEN "absent" ELSE "ok"
IsDir(p) == Stat(p) = "ok" /\ Kind(p) \in DirKinds
CanRead(p) == Stat(p) = "ok" /\ Kind(p) \in {"file", "code"} /\ fs[p].mode # "no"
CanList(p) == IsDir(p) /\ Kind(p) # "closed"
Entries(p) == {q[Len(q)] : q \in {x \in DOMAIN fs : Len(x) = Len(p) + 1 /\ SubSeq(x, 1, Len(p)) = p}}
\* the file system after making directory p with its parents, empty if that fails
RECURSIVE MkAll(_, _, _)
MkAll(f, p, i) == IF i > Len(p) THEN f
                  ELSE LET q == SubSeq(p, 1, i) k == IF q \in DOMAIN f THEN f[q].k ELSE "missing" IN
                       IF k = "missing" THEN (IF f[Parent(q)].k = "dir" THEN MkAll(f @@ (q :> Dir), p, i + 1) ELSE <<>>)
                       ELSE IF k \in {"dir", "sealed"} \/ (k = "closed" /\ i = Len(p)) THEN MkAll(f, p, i + 1)
                       ELSE <<>>
Failed(f) == DOMAIN f = {}
CanCreate(p) == Reach(p) = "ok" /\ Kind(p) = "missing" /\ Kind(Parent(p)) = "dir"
CanOverwrite(p) == Reach(p) = "ok" /\ Kind(p) \in {"file", "code"} /\ fs[p].mode = "rw"

(***************************************************************************)
(* The steps of a run.                                                     *)
(***************************************************************************)
Fail == /\ phase' = "end" /\ result' = "fail" /\ UNCHANGED <<fs, builds, b, todo, notice, wrote>>
DefaultBuilds == <<[src |-> <<>>, out |-> <<"dist">>, pkg |-> "dist"]>>
Exists(p) == Kind(p) # "missing"
ConfigPath == IF Exists(<<"cddlc.json">>) THEN <<"cddlc.json">> ELSE IF Exists(<<"cddlc.yaml">>) THEN <<"cddlc.yaml">> ELSE <<>>
Discover == /\ phase = "start"
            /\ IF ConfigPath = <<>> THEN builds' = DefaultBuilds /\ notice' = TRUE /\ phase' = "build" /\ UNCHANGED result
               ELSE IF CanRead(ConfigPath) /\ fs[ConfigPath].of \in DOMAIN configs
               THEN builds' = configs[fs[ConfigPath].of] /\ phase' = "build" /\ UNCHANGED <<notice, result>>
               ELSE phase' = "end" /\ result' = "fail" /\ UNCHANGED <<notice, builds>>
            /\ UNCHANGED <<fs, b, todo, wrote>>
Build == b + 1
StartBuild == /\ phase = "build" /\ b < Len(builds)
              /\ LET src == builds[Build].src IN
                 IF ~ CanList(src) THEN Fail
                 ELSE todo' = Sorted(Entries(src)) /\ phase' = "file" /\ UNCHANGED <<fs, builds, b, result, notice, wrote>>
Done == phase = "build" /\ b = Len(builds) /\ phase' = "end" /\ result' = "ok" /\ UNCHANGED <<fs, builds, b, todo, notice, wrote>>
EndBuild == phase = "file" /\ todo = <<>> /\ phase' = "build" /\ b' = b + 1 /\ UNCHANGED <<fs, builds, todo, result, notice, wrote>>
Skip == phase = "file" /\ todo # <<>> /\ ~ IsDefinition(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<fs, phase, builds, b, result, notice, wrote>>
MakeOut == /\ phase = "file" /\ todo # <<>> /\ IsDefinition(Head(todo))
           /\ LET out == builds[Build].out st == Stat(out) f == MkAll(fs, out, 1) IN
              IF st = "ok" THEN phase' = "read" /\ UNCHANGED <<fs, builds, b, todo, result, notice, wrote>>
              ELSE IF st = "absent" /\ ~ Failed(f) THEN fs' = f /\ phase' = "read" /\ UNCHANGED <<builds, b, todo, result, notice, wrote>>
              ELSE Fail
Source == Append(builds[Build].src, Head(todo))
Target == Append(builds[Build].out, GoName(Head(todo)))
Read == phase = "read" /\ (IF CanRead(Source) /\ fs[Source].k = "file" THEN phase' = "compile" /\ UNCHANGED <<fs, builds, b, todo, result, notice, wrote>> ELSE Fail)
Compile == phase = "compile" /\ (IF quality[fs[Source].of] = "good" THEN phase' = "write" /\ UNCHANGED <<fs, builds, b, todo, result, notice, wrote>> ELSE Fail)
Write == /\ phase = "write"
         /\ IF CanCreate(Target) \/ CanOverwrite(Target)
            THEN /\ fs' = (Target :> Code(fs[Source].of, builds[Build].pkg)) @@ fs
                 /\ wrote' = Append(wrote, Target) /\ todo' = Tail(todo) /\ phase' = "file"
                 /\ UNCHANGED <<builds, b, result, notice>>
            ELSE Fail
Step == (Discover \/ StartBuild \/ Done \/ EndBuild \/ Skip \/ MakeOut \/ Read \/ Compile \/ Write) /\ UNCHANGED <<configs, quality>>

Ready == phase = "start" /\ builds = <<>> /\ b = 0 /\ todo = <<>> /\ result = "" /\ notice = FALSE /\ wrote = <<>>
Restart == phase' = "start" /\ builds' = <<>> /\ b' = 0 /\ todo' = <<>> /\ result' = "" /\ notice' = FALSE /\ wrote' = <<>>
=============================================================================
