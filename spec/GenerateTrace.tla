--------------------------- MODULE GenerateTrace ---------------------------
(***************************************************************************)
(* Recorded runs of generate: from what was there, the machine has to end  *)
(* as the recording says.                                                  *)
(***************************************************************************)
EXTENDS Generate, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Map(s) == [p \in {s[k][1] : k \in 1..Len(s)} |-> (CHOOSE x \in {s[k] : k \in 1..Len(s)} : x[1] = p)[2]]
Conf(s) == [c \in {s[k][1] : k \in 1..Len(s)} |-> (CHOOSE x \in {s[k] : k \in 1..Len(s)} : x[1] = c)[2]]
Load(n) == /\ fs' = Map(Runs[n].first) /\ configs' = Conf(Runs[n].configs) /\ quality' = Runs[n].quality /\ i' = n /\ Restart
TInit == /\ i = 0 /\ fs = (<<>> :> Dir) /\ configs = <<>> /\ quality = <<>> /\ phase = "end" /\ builds = <<>> /\ b = 0 /\ todo = <<>> /\ result = "" /\ notice = FALSE /\ wrote = <<>>
TNext == \/ phase = "end" /\ i < Len(Runs) /\ Load(i + 1)
         \/ phase # "end" /\ Step /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_<<vars, i>>
Plain(f) == {p \in DOMAIN f : f[p].k \notin DirKinds}
Outs == UNION {{SubSeq(builds[n].out, 1, k) : k \in 0..Len(builds[n].out)} : n \in 1..Len(builds)}
Same(r) == LET a == Map(r.after) IN
    /\ r.result = result /\ r.notice = notice
    /\ Plain(a) = Plain(fs) /\ \A p \in Plain(a) : a[p] = fs[p]
    /\ \A p \in DOMAIN a \ Plain(a) : IF p \in DOMAIN fs THEN a[p].k = fs[p].k ELSE p \in Outs
    /\ \A p \in DOMAIN fs \ Plain(fs) : p \in DOMAIN a \/ (result = "fail" /\ p \in Outs)
Judged == (phase = "end" /\ i > 0) =>
    IF Same(Runs[i]) THEN PrintT("ACCEPT " \o ToString(i))
    ELSE PrintT("REJECT " \o result \o " " \o ToString(i) \o " expected " \o ToJson([result |-> result, notice |-> notice, after |-> {<<p, fs[p]>> : p \in DOMAIN fs}]))
=============================================================================
