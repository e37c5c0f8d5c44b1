-------------------------------- MODULE TraceFact --------------------------------
(* Traces that record facts measured on the real code, each a relation that the *)
(* specification requires between two values: [t |-> "fact", name, got, want].  *)
EXTENDS TraceBase
VARIABLES ep, i, bad
vars == <<ep, i, bad>>
Init == ep \in Ids /\ i = 1 /\ bad = {}
E0 == Ev(ep)[i]
Next ==
  /\ i <= Len(Ev(ep))
  /\ i' = i + 1 /\ ep' = ep
  /\ bad' = bad \cup (IF E0.t = "fact" /\ E0.got # E0.want THEN {<<E0.name, i>>} ELSE {})
                \cup (IF E0.t \in {"die", "hang"} THEN {<<"panic", i>>} ELSE {})
  /\ i' > Len(Ev(ep)) => Report(ep, bad')
Spec == Init /\ [][Next]_vars
=================================================================================
