-------------------------------- MODULE TraceMass --------------------------------
(* Validates programs run on large indexes. The keywords are gathered in groups  *)
(* that are always modified as a whole: the state of the specification is, for   *)
(* each group, the set of its values, the number of the lines its values take in *)
(* each chain and whether its keywords have entries. Everything that is counted  *)
(* on the real code is compared to what the specification computes from it.      *)
EXTENDS TraceBase
VARIABLES ep, i, G, st, old, bad
vars == <<ep, i, G, st, old, bad>>
E0 == Ev(ep)[i]
Flag(cond, tag) == IF cond THEN {} ELSE {<<tag, i>>}

\* lines of k values of the same length
LinesOf(k, len) == CeilDiv(k * BlocksOf(len), 5)

Init == ep \in Ids /\ i = 1 /\ G = <<>> /\ st = <<>> /\ old = <<>> /\ bad = {}

RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
Ets(s) == SumF([g \in DOMAIN s |-> IF s[g].here THEN G[g].n ELSE 0], DOMAIN s)
Cts(s) == SumF([g \in DOMAIN s |-> G[g].n * s[g].lines], DOMAIN s)
Vals(r) == UNION {r[j][1] .. r[j][2] : j \in DOMAIN r}
Fresh == Flag(E0.sent = E0.nonces /\ E0.sent = E0.texts /\ E0.lines = E0.tokens, "fresh")
Sizes(s) == Flag(E0.et = Ets(s), "min.et") \cup Flag(E0.ct = Cts(s), "min.ct")
Ok == Flag(E0.st = "ok", "spurious")

Groups ==
  /\ E0.t = "groups"
  /\ G' = E0.g /\ st' = [g \in DOMAIN E0.g |-> [vals |-> {}, lines |-> 0, here |-> FALSE]]
  /\ UNCHANGED <<old, bad>>

Write ==
  /\ E0.o \in {"add", "del"}
  /\ \E g \in {E0.g} : \E V \in {E0.lo .. (E0.hi - 1)} :
     LET new == [vals |-> IF E0.o = "add" THEN st[g].vals \cup V ELSE st[g].vals \ V,
                 lines |-> st[g].lines + LinesOf(E0.hi - E0.lo, G[g].len), here |-> TRUE]
     IN /\ st' = [st EXCEPT ![g] = new]
        /\ bad' = bad \cup Ok \cup Fresh \cup
             (IF E0.st # "ok" THEN {} ELSE
              Flag(E0.new = (IF st[g].here THEN 0 ELSE G[g].n) /\ E0.alien = 0, "new") \cup Flag(E0.et = Ets(st') /\ E0.ct = Cts(st'), "lines"))
  /\ UNCHANGED <<G, old>>

Search ==
  /\ E0.o = "search"
  /\ LET want == IF E0.lo = 1 THEN old ELSE st IN
     bad' = bad \cup Ok \cup
       (IF E0.st # "ok" THEN {} ELSE
        Flag(E0.wrong = 0 /\ E0.n = 1 + SumF([g \in DOMAIN G |-> G[g].n], DOMAIN G)
             /\ \A g \in DOMAIN want :
                  Len(E0.out[g]) = 1 /\ E0.out[g][1].n = G[g].n /\ Vals(E0.out[g][1].vals) = want[g].vals,
             IF E0.lo = 1 THEN "rekey.old" ELSE "search.out")
        \cup Flag(E0.same, "changed"))
  /\ UNCHANGED <<G, st, old>>

\* A full compaction leaves minimal chains, and so do repeated partial ones when their
\* number makes it certain that every entry was drawn (the last one has E0.drawn).
Compact ==
  /\ E0.o = "compact"
  /\ \E D \in {E0.lo .. (E0.hi - 1)} :
     LET all == [g \in DOMAIN st |->
           LET v == st[g].vals \ D IN [vals |-> v, lines |-> LinesOf(Cardinality(v), G[g].len), here |-> v # {}]]
         fin == E0.full \/ E0.drawn
     IN /\ st' = IF fin THEN all ELSE st
        /\ bad' = bad \cup Ok \cup Fresh \cup
             (IF E0.st # "ok" THEN {} ELSE
              Flag(E0.kept_et = 0, "rekey.et")
              \cup Flag(E0.alien = 0, "filter")
              \cup (IF fin THEN Sizes(all) ELSE Flag(E0.et <= Ets(st) /\ E0.ct <= Cts(st), "grow"))
              \cup (IF E0.full THEN Flag(E0.kept_ct = 0, "rekey.ct")
                                    \cup Flag(E0.fed = SumF([g \in DOMAIN st |-> Cardinality(st[g].vals)], DOMAIN st), "filter")
                    ELSE {}))
        /\ old' = [g \in DOMAIN st |-> [vals |-> {}, lines |-> 0, here |-> FALSE]]
  /\ UNCHANGED G

Next ==
  /\ i <= Len(Ev(ep))
  /\ i' = i + 1 /\ ep' = ep
  /\ (IF E0.t = "mass" THEN Write \/ Search \/ Compact
      ELSE IF E0.t = "groups" THEN Groups
      ELSE bad' = bad \cup Flag(E0.t \notin {"die", "hang"}, "panic") /\ UNCHANGED <<G, st, old>>)
  /\ i' > Len(Ev(ep)) => Report(ep, bad')
Spec == Init /\ [][Next]_vars
==================================================================================
