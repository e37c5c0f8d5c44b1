------------------------------- MODULE TraceEdxLin -------------------------------
(* Threads using the in-memory backend at the same time, each operation about    *)
(* the whole of a group of tokens: the group behaves as one atomic register.     *)
(* The monitor keeps every configuration (value, results of the operations that  *)
(* already took effect) compatible with what was observed.                       *)
EXTENDS TraceBase
VARIABLES ep, i, pend, cfgs, bad
vars == <<ep, i, pend, cfgs, bad>>
Empty == [val |-> "-", done |-> {}]
Init == ep \in Ids /\ i = 1 /\ pend = <<>> /\ cfgs = {Empty} /\ bad = {}
E0 == Ev(ep)[i]

\* <<new value, result>>
Do(v, o) ==
  CASE o.op = "fetch" -> <<v, v>>
    [] o.op = "dump" -> <<v, IF v = "-" THEN "none" ELSE "all">>
    [] o.op = "delete" -> <<"-", "ok">>
    [] o.op = "insert" -> IF v = "-" THEN <<o.new, "ok">> ELSE <<v, "err">>
    [] o.op = "upsert" -> IF v = o.old THEN <<o.new, "ok">>
                          ELSE IF v = "-" THEN <<v, "err">> ELSE <<v, v>>
Step(C, p) ==
  C \cup UNION {{[val |-> Do(c.val, p[x])[1], done |-> c.done \cup {<<x, Do(c.val, p[x])[2]>>}] :
                   x \in {y \in DOMAIN p : \A d \in c.done : d[1] # y}} : c \in C}
RECURSIVE Close(_, _)
Close(C, p) == LET n == Step(C, p) IN IF n = C THEN C ELSE Close(n, p)

Inv == /\ E0.t = "inv"
       /\ pend' = (E0.c :> E0) @@ pend
       /\ UNCHANGED <<cfgs, bad>>
Ret == /\ E0.t = "ret"
       /\ LET n == {c \in Close(cfgs, pend) : <<E0.c, E0.ret>> \in c.done}
              s == {[val |-> c.val, done |-> {d \in c.done : d[1] # E0.c}] : c \in n}
          IN /\ bad' = bad \cup (IF E0.ret = "mixed" THEN {<<"edx.torn", i>>} ELSE IF n = {} THEN {<<"edx.lin", i>>} ELSE {})
             \* after a first violation nothing more can be said
             /\ cfgs' = s
       /\ pend' = [x \in DOMAIN pend \ {E0.c} |-> pend[x]]
Other == /\ E0.t \notin {"inv", "ret"}
         /\ bad' = bad \cup {<<"panic", i>>}
         /\ UNCHANGED <<pend, cfgs>>
Next ==
  /\ i <= Len(Ev(ep)) /\ i' = i + 1 /\ ep' = ep
  /\ (Inv \/ Ret \/ Other)
  /\ i' > Len(Ev(ep)) => Report(ep, bad')
Spec == Init /\ [][Next]_vars
===================================================================================
