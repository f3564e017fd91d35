----------------------------- MODULE Intervals -----------------------------
(***************************************************************************)
(* The runtime checks of intervals and limits.  Values matter only through *)
(* their order: a value is its rank among the three arguments, or no       *)
(* number.  The table TLC prints is complete for every ordered type.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
NaN == 0
Values == {NaN, 1, 2, 3}
Less(a, b) == a # NaN /\ b # NaN /\ a < b
Same(a, b) == a # NaN /\ b # NaN /\ a = b

(***************************************************************************)
(* The steps of a check: the limits are looked at one after the other and  *)
(* the check fails at the first that does not admit the value.             *)
(***************************************************************************)
Checks == [inclusive |-> <<"ge", "le">>, exclusive |-> <<"gt", "lt">>, less |-> <<"none", "lt">>, greater |-> <<"gt", "none">>]
Admits(op, v, limit) ==
    CASE op = "none" -> TRUE
      [] op = "ge" -> Less(limit, v) \/ Same(v, limit)
      [] op = "gt" -> Less(limit, v)
      [] op = "le" -> Less(v, limit) \/ Same(v, limit)
      [] op = "lt" -> Less(v, limit)
VARIABLES check, v, lo, hi, pc, ok
vars == <<check, v, lo, hi, pc, ok>>
Init == check \in DOMAIN Checks /\ v \in Values /\ lo \in Values /\ hi \in Values /\ pc = "lower" /\ ok = TRUE
Lower == pc = "lower" /\ ok' = Admits(Checks[check][1], v, lo) /\ pc' = (IF ok' THEN "upper" ELSE "done") /\ UNCHANGED <<check, v, lo, hi>>
Upper == pc = "upper" /\ ok' = Admits(Checks[check][2], v, hi) /\ pc' = "done" /\ UNCHANGED <<check, v, lo, hi>>
Next == Lower \/ Upper
Spec == Init /\ [][Next]_vars

\* what the property says: membership in sets of ranks
Closed(a, b) == {x \in Values \ {NaN} : a # NaN /\ b # NaN /\ x >= a /\ x <= b}
Open(a, b) == {x \in Closed(a, b) : x # a /\ x # b}
Inv_Interval == pc = "done" =>
    /\ check = "inclusive" => ok = (v \in Closed(lo, hi))
    /\ check = "exclusive" => ok = (v \in Open(lo, hi))
    /\ check = "less" => ok = (\E x \in Values \ {NaN} : v # NaN /\ hi = x /\ v \in Closed(1, x) \ {x})
    /\ check = "greater" => ok = (\E x \in Values \ {NaN} : v # NaN /\ lo = x /\ v \in Closed(x, 3) \ {x})
Inv_NaN == (pc = "done" /\ v = NaN) => ~ ok
Inv_Empty == (pc = "done" /\ check \in {"inclusive", "exclusive"} /\ Less(hi, lo)) => ~ ok
Emitted == pc = "done" => PrintT("CASE " \o ToJson([check |-> check, v |-> v, lo |-> lo, hi |-> hi, ok |-> ok]))
=============================================================================
