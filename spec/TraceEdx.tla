--------------------------------- MODULE TraceEdx ---------------------------------
(* Validates the operations of the real in-memory backend against the contract.  *)
EXTENDS TraceBase, Edx
VARIABLES ep, i, tab, bad
vars == <<ep, i, tab, bad>>
Init == ep \in Ids /\ i = 1 /\ tab = {} /\ bad = {}
E0 == Ev(ep)[i]
Flag(cond, tag) == IF cond THEN {} ELSE {<<tag, i>>}
Edx1 ==
  /\ E0.t = "edx"
  /\ LET op == [op |-> E0.op, new |-> SeqSet(E0.new), old |-> SeqSet(E0.old), tok |-> SeqSet(E0.tok)]
         r == Effect(tab, op)
         all == SeqSet(E0.all)
     IN /\ bad' = bad \cup Flag(E0.st = r.st, "edx.st")
                      \cup Flag(SeqSet(E0.ret) = r.ret /\ Len(E0.ret) = Cardinality(r.ret), "edx.ret")
                      \cup Flag(all = r.tab, "edx.tab")
                      \cup Flag(E0.op = "dump" => SeqSet(E0.rtok) = Dom(tab), "edx.ret")
                      \cup Flag(E0.op = "len" => E0.num = Cardinality(tab), "edx.ret")
        \* go on from what is really stored
        /\ tab' = all
Other ==
  /\ E0.t # "edx"
  /\ bad' = bad \cup Flag(E0.t \notin {"die", "hang"}, "panic")
  /\ tab' = tab
Next ==
  /\ i <= Len(Ev(ep)) /\ i' = i + 1 /\ ep' = ep
  /\ (Edx1 \/ Other)
  /\ i' > Len(Ev(ep)) => Report(ep, bad')
Spec == Init /\ [][Next]_vars
===================================================================================
