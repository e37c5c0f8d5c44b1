----------------------------------- MODULE Edx -----------------------------------
(* The storage contract (DbInterface): a table is a partial function from       *)
(* tokens to values; every operation is atomic.                                 *)
(*                                                                              *)
(*   stored \ expected |  none     |  "A"      |  "B"                           *)
(*   none              |  written  |  error    |  error                         *)
(*   "A"               |  rejected |  written  |  rejected                      *)
EXTENDS FindexCore, FiniteSetsExt

\* maps are sets of pairs <<token, value>>
Dom(S) == {x[1] : x \in S}
Get(S, t) == {x[2] : x \in {y \in S : y[1] = t}}
IsMap(S) == \A x, y \in S : x[1] = y[1] => x = y
Put(tab, S) == {x \in tab : x[1] \notin Dom(S)} \cup S

\* each operation: [st, tab (after), ret]
EInsert(tab, new) ==
  IF Dom(new) \cap Dom(tab) # {} THEN [st |-> "err", tab |-> tab, ret |-> {}]
  ELSE [st |-> "ok", tab |-> tab \cup new, ret |-> {}]
EUpsert(tab, old, new) ==
  IF ~(Dom(old) \subseteq Dom(tab)) THEN [st |-> "err", tab |-> tab, ret |-> {}]
  ELSE LET ok == {x \in new : Get(old, x[1]) = Get(tab, x[1])}
       IN [st |-> "ok", tab |-> Put(tab, ok), ret |-> {y \in tab : y[1] \in Dom(new \ ok)}]
EFetch(tab, T) == [st |-> "ok", tab |-> tab, ret |-> {x \in tab : x[1] \in T}]
EDelete(tab, T) == [st |-> "ok", tab |-> {x \in tab : x[1] \notin T}, ret |-> {}]
ELoad(new) == [st |-> "ok", tab |-> new, ret |-> {}]

Effect(tab, op) ==
  CASE op.op = "insert" -> EInsert(tab, op.new)
    [] op.op = "upsert" -> EUpsert(tab, op.old, op.new)
    [] op.op = "fetch"  -> EFetch(tab, op.tok)
    [] op.op = "delete" -> EDelete(tab, op.tok)
    [] op.op = "load"   -> ELoad(op.new)
    [] op.op = "flush"  -> ELoad({})
    [] OTHER            -> EFetch(tab, {})       \* dump, len, reload: nothing changes
==================================================================================
