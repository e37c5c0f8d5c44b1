---------------------------------- MODULE EdxMC ----------------------------------
(* All the tables over a few tokens and values, all the operations on them.     *)
EXTENDS Edx, Json, IOUtils, CSV
CONSTANTS Toks, Vals
VARIABLES tab, last
vars == <<tab, last>>

Maps == {S \in SUBSET (Toks \X Vals) : IsMap(S)}
Op(o, new, old, T) == [op |-> o, new |-> new, old |-> old, tok |-> T]
Ops == {Op("insert", S, {}, {}) : S \in Maps}
       \cup {Op("upsert", p[1], p[2], {}) : p \in {q \in Maps \X Maps : Dom(q[2]) \subseteq Dom(q[1])}}
       \cup {Op("fetch", {}, {}, T) : T \in SUBSET Toks}
       \cup {Op("delete", {}, {}, T) : T \in SUBSET Toks}
       \cup {Op("load", S, {}, {}) : S \in Maps}
       \cup {Op(o, {}, {}, {}) : o \in {"dump", "len", "reload", "flush"}}
Init == tab = {} /\ last = [op |-> "none"]
\* last does not take part in the state (see VIEW): every operation is exported
\* once from every table
Next == \E op \in Ops :
  LET r == Effect(tab, op) IN
  /\ tab' = r.tab
  /\ last' = [op |-> op.op, op0 |-> op, st |-> r.st, ret |-> r.ret, pre |-> tab]
  /\ (IF IOEnv.OUT = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([pre |-> tab, op |-> op])>>, IOEnv.OUT))
Spec == Init /\ [][Next]_vars
View == tab
TypeOK == IsMap(tab)
\* the contract, stated on one token
Contract == [][
  LET l == last' IN
  /\ l.st = "err" => tab' = tab
  /\ l.op \in {"fetch", "dump", "len", "reload"} => tab' = tab
  /\ l.op = "upsert" /\ l.st = "ok" =>
       \A t \in Toks : LET o == Get(l.op0.old, t)  n == Get(l.op0.new, t)  s == Get(tab, t) IN
          IF n = {} THEN Get(tab', t) = s /\ Get(l.ret, t) = {}
          ELSE IF o = s THEN Get(tab', t) = n /\ Get(l.ret, t) = {}
          ELSE Get(tab', t) = s /\ Get(l.ret, t) = s
  /\ l.op = "upsert" => (l.st = "err" <=> \E t \in Dom(l.op0.old) : Get(tab, t) = {})
  /\ l.op = "insert" => (l.st = "err" <=> \E t \in Dom(l.op0.new) : Get(tab, t) # {})
  /\ l.op = "insert" /\ l.st = "ok" => \A t \in Toks : Get(tab', t) = Get(tab, t) \cup Get(l.op0.new, t)
  /\ l.op = "fetch" => l.ret = {x \in tab : x[1] \in l.op0.tok}
  /\ l.op = "delete" => tab' = {x \in tab : x[1] \notin l.op0.tok}
  ]_vars
==================================================================================
