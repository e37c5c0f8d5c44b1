-------------------------------- MODULE TraceFresh --------------------------------
(* Freshness of everything random that is sent to the storage.                   *)
(*   fresh.nonce   a nonce was used before          (values sent, refused or not) *)
(*   fresh.value   a ciphertext was used before                                  *)
(*   fresh.token   a new line of a chain has a token used before                 *)
(*   fresh.keygen  generated keys or labels are not distinct                     *)
EXTENDS TraceBase
VARIABLES ep, i, nonces, vals, lines, bad
vars == <<ep, i, nonces, vals, lines, bad>>
Init == ep \in Ids /\ i = 1 /\ nonces = {} /\ vals = {} /\ lines = {} /\ bad = {}
E0 == Ev(ep)[i]
Flag(cond, tag) == IF cond THEN {} ELSE {<<tag, i>>}
Nth(l, k) == {l[j][k] : j \in DOMAIN l}
Db ==
  /\ E0.t = "db" /\ E0.call \in {"upsert", "insert"}
  /\ LET n == E0.new
         ns == Nth(n, 3)  vs == Nth(n, 2)  ts == Nth(n, 1)
         ct == E0.tab = "ct"
     IN /\ bad' = bad
             \cup Flag(Cardinality(ns) = Len(n) /\ ns \cap nonces = {}, "fresh.nonce")
             \cup Flag(Cardinality(vs) = Len(n) /\ vs \cap vals = {}, "fresh.value")
             \cup Flag(~ct \/ (Cardinality(ts) = Len(n) /\ ts \cap lines = {}), "fresh.token")
        /\ nonces' = nonces \cup ns /\ vals' = vals \cup vs
        /\ lines' = IF ct THEN lines \cup ts ELSE lines
Other ==
  /\ ~(E0.t = "db" /\ E0.call \in {"upsert", "insert"})
  /\ bad' = bad \cup Flag(E0.t # "keygen" \/ E0.got = E0.want, "fresh.keygen")
                \cup Flag(E0.t \notin {"die", "hang"}, "panic")
  /\ UNCHANGED <<nonces, vals, lines>>
Next ==
  /\ i <= Len(Ev(ep)) /\ i' = i + 1 /\ ep' = ep
  /\ (Db \/ Other)
  /\ i' > Len(Ev(ep)) => Report(ep, bad')
Spec == Init /\ [][Next]_vars
===================================================================================
