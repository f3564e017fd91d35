----------------------------- MODULE ConfigLoad -----------------------------
(***************************************************************************)
(* Loading a configuration.  First the settings are written, key by key in *)
(* any order, as JSON or YAML under some name and possibly with a fault;   *)
(* then they are loaded, one key after the other.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Bases, Styles, Faults, Strings, MaxBuilds, MaxPlugins, MaxKeys, Opts, MinSteps

Accepted == {"cddlc.json", "cddlc.yaml"}
Zero == [version |-> "", plugins |-> <<>>, builds |-> <<>>, options |-> "none"]
Keys == {"version", "plugins", "builds", "options"}
BuildsOf == {[package |-> p, src |-> s, output |-> o] : p \in Strings, s \in Strings, o \in Strings}
PluginsOf == {[name |-> n, url |-> u, path |-> p] : n \in Strings, u \in Strings, p \in Strings}

VARIABLES phase, base, style, fault, doc, loaded, next
vars == <<phase, base, style, fault, doc, loaded, next>>
Written == {doc[i].key : i \in 1..Len(doc)}
Init == /\ phase = "write" /\ base \in Bases /\ style \in Styles /\ fault \in Faults
        /\ doc = <<>> /\ loaded = Zero /\ next = 1
Add(k, v) == doc' = Append(doc, [key |-> k, value |-> v]) /\ UNCHANGED <<phase, base, style, fault, loaded, next>>
Write == phase = "write" /\ Len(doc) < MaxKeys /\
         \/ "version" \notin Written /\ \E s \in Strings : Add("version", s)
         \/ "plugins" \notin Written /\ Add("plugins", <<>>)
         \/ "builds" \notin Written /\ Add("builds", <<>>)
         \/ "options" \notin Written /\ \E o \in Opts : Add("options", o)
         \* the settings a later version may know
         \/ "unknown" \notin Written /\ Add("unknown", "")
\* the list written last gets one more element
Grow == /\ phase = "write" /\ doc # <<>>
        /\ LET d == doc[Len(doc)] IN
           \/ /\ d.key = "builds" /\ Len(d.value) < MaxBuilds
              /\ \E x \in BuildsOf : doc' = [doc EXCEPT ![Len(doc)].value = Append(@, x)]
           \/ /\ d.key = "plugins" /\ Len(d.value) < MaxPlugins
              /\ \E x \in PluginsOf : doc' = [doc EXCEPT ![Len(doc)].value = Append(@, x)]
        /\ UNCHANGED <<phase, base, style, fault, loaded, next>>
\* a fault needs something it can be in
Applies == CASE fault = "none" -> TRUE
             [] fault \in {"truncated", "trailing", "empty", "scalar", "list", "otherformat", "tabs"} -> TRUE
             [] fault \in {"nullbuild", "buildslist", "buildscalar", "buildtype", "buildlisttype"} -> "builds" \in Written
             [] fault = "versiontype" -> "version" \in Written
             [] fault = "plugintype" -> "plugins" \in Written
             [] fault = "optionstype" -> "options" \in Written
Steps == TLCGet("level")
Close == phase = "write" /\ Steps > MinSteps /\ Applies /\ phase' = (IF base \in Accepted /\ fault = "none" THEN "load" ELSE "error") /\ UNCHANGED <<base, style, fault, doc, loaded, next>>
Load == /\ phase = "load" /\ next <= Len(doc)
        /\ LET d == doc[next] IN loaded' = IF d.key \in Keys THEN [loaded EXCEPT ![d.key] = d.value] ELSE loaded
        /\ next' = next + 1 /\ UNCHANGED <<phase, base, style, fault, doc>>
Finish == phase = "load" /\ next > Len(doc) /\ phase' = "ok" /\ UNCHANGED <<base, style, fault, doc, loaded, next>>
Next == Write \/ Grow \/ Close \/ Load \/ Finish
Spec == Init /\ [][Next]_vars

\* every setting has the value written, the others none; neither order, name nor style matter
Inv_Values == phase = "ok" => /\ \A i \in 1..Len(doc) : doc[i].key \in Keys => loaded[doc[i].key] = doc[i].value
                              /\ \A k \in Keys \ Written : loaded[k] = Zero[k]
                              /\ fault = "none" /\ base \in Accepted
Inv_Error == phase = "error" => (fault # "none" \/ base \notin Accepted) /\ loaded = Zero
Emitted == phase \in {"ok", "error"} => PrintT("CASE " \o ToJson([result |-> phase, base |-> base, style |-> style, fault |-> fault, doc |-> doc, loaded |-> loaded]))
=============================================================================
