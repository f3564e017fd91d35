------------------------------ MODULE GenTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the code generator: what it declared for a tree has to *)
(* be what CddlGen says, if the tree is in its domain.                     *)
(***************************************************************************)
EXTENDS CddlGen, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Same(r) == r.decls = Declarations(r.out)
Judged == i > 0 => LET r == Runs[i] IN
    IF ~ InDomain(r.out) THEN PrintT("OUTSIDE " \o ToString(i))
    ELSE IF r.err # "" THEN PrintT("REJECT C15 " \o ToString(i) \o " " \o r.err)
    ELSE IF Same(r) THEN PrintT("ACCEPT " \o ToString(i))
    ELSE PrintT("REJECT C15 " \o ToString(i) \o " expected " \o ToJson(Declarations(r.out)))
=============================================================================
