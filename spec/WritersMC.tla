-------------------------------- MODULE WritersMC --------------------------------
(* The design specification (Findex.tla) implements Writers.tla for each of its *)
(* keywords: what tlapm proves there for any number of clients and lines holds  *)
(* for it. Each operation of a client is a writer or a reader of its own.       *)
(* History variables remember who wrote and read what.                          *)
EXTENDS MC
Inits0 == {<<>>}
VARIABLE h    \* keyword -> history
hvars == <<vars, h>>

Ws == Clients \X (1..2)
NoEntry == [seed |-> -1, len |-> 0]
EntryOf(e) == IF e = None THEN NoEntry ELSE [seed |-> e.seed, len |-> e.last]
OpOf(w) == prog[w[1]][w[2]]
Is(w) == w[2] <= Len(prog[w[1]])
Writes(w, k) == Is(w) /\ OpOf(w).op \in {"add", "del"} /\ k \in DOMAIN OpOf(w).as
Reads(w, k) == Is(w) /\ OpOf(w).op = "search" /\ k \in OpOf(w).kws

PcOf(w, k) ==
  LET c == w[1]  i == w[2] IN
  IF ~Writes(w, k) \/ i > ip[c] THEN "start"
  ELSE IF i < ip[c] THEN IF res[c][i].st = "ok" THEN "done" ELSE "dead"
  ELSE CASE pc[c] = "idle" -> "start"
         [] pc[c] = "dead" -> "dead"
         [] pc[c] = "wupsert" /\ k \in loc[c].todo -> "up"
         [] OTHER -> "ins"
RpcOf(w, k) ==
  LET c == w[1]  i == w[2] IN
  IF ~Reads(w, k) \/ i > ip[c] THEN "start"
  ELSE IF i < ip[c] THEN IF res[c][i].st = "ok" THEN "end" ELSE IF w \in h[k].fetched THEN "links" ELSE "start"
  ELSE IF w \in h[k].fetched THEN "links" ELSE "start"

H0 == [com |-> {}, base |-> [w \in Ws |-> 0], sd |-> [w \in Ws |-> 0], new |-> {}, lines |-> {},
       seen |-> [w \in Ws |-> NoEntry], fetched |-> {}, ent |-> [w \in Ws |-> NoEntry],
       done |-> [w \in Ws |-> {}], got |-> [w \in Ws |-> {}]]
\* what the step of client c, in its operation w, adds to the history of k
Then(k, c) ==
  LET w == <<c, ip[c]>>  e == et[<<1, k>>]  f == et'[<<1, k>>]  o == h[k]
      took == f # e
      mine == {<<x[1], x[2], w>> : x \in {y \in DOMAIN ct' \ DOMAIN ct : f # None /\ y[1] = f.seed}}
      up == pc'[c] = "wupsert" /\ Writes(w, k) /\ k \in loc'[c].todo
      rd == pc[c] = "idle" /\ pc'[c] = "slinks" /\ Reads(w, k)
      fin == pc[c] = "slinks" /\ pc'[c] = "idle" /\ Reads(w, k) /\ res'[c][ip[c]].st = "ok"
  IN [com |-> IF took THEN o.com \cup {w} ELSE o.com,
      base |-> IF took THEN [o.base EXCEPT ![w] = e.last] ELSE o.base,
      sd |-> IF took THEN [o.sd EXCEPT ![w] = f.seed] ELSE o.sd,
      new |-> IF took /\ e = None THEN o.new \cup {w} ELSE o.new,
      lines |-> o.lines \cup mine,
      seen |-> IF up THEN [o.seen EXCEPT ![w] = EntryOf(loc'[c].old[k])] ELSE o.seen,
      fetched |-> IF rd THEN o.fetched \cup {w} ELSE o.fetched,
      ent |-> IF rd THEN [o.ent EXCEPT ![w] = EntryOf(e)] ELSE o.ent,
      done |-> IF rd THEN [o.done EXCEPT ![w] = {v \in Ws : PcOf(v, k) = "done"}] ELSE o.done,
      got |-> IF fin THEN [o.got EXCEPT ![w] = IF o.ent[w] = NoEntry THEN {}
                                  ELSE {l \in o.lines : l[1] = o.ent[w].seed /\ l[2] <= o.ent[w].len}] ELSE o.got]

HInit == Init /\ h = [k \in Kws |-> H0]
HNext ==
  \E c \in Clients : /\ (\E d0 \in Decisions : Step(c, d0)) \/ Crash(c)
                     /\ h' = [k \in Kws |-> Then(k, c)]
HSpec == HInit /\ [][HNext]_hvars

P(k) == INSTANCE Writers WITH
  W <- Ws, R <- Ws, Seeds <- 0..40, None <- NoEntry, n <- [w \in Ws |-> 1],
  entry <- EntryOf(et[<<1, k>>]), pc <- [w \in Ws |-> PcOf(w, k)], seen <- h[k].seen,
  com <- h[k].com, base <- h[k].base, sd <- h[k].sd, new <- h[k].new, lines <- h[k].lines,
  rpc <- [w \in Ws |-> RpcOf(w, k)], rent <- h[k].ent, rdone <- h[k].done, rgot <- h[k].got
ImplA == P(A)!Spec
ImplB == P(B)!Spec
SafeA == P(A)!Safe
\* the histories are those of the results: new keywords, and values read
HistOK == \A k \in Kws : \A w \in Ws :
  /\ PcOf(w, k) = "done" => (k \in res[w[1]][w[2]].new <=> w \in h[k].new)
  /\ RpcOf(w, k) = "end" =>
       res[w[1]][w[2]].out[k] =
         LET q == h[k].got[w]
             at(i) == (CHOOSE l \in q : l[2] = i)[3]
             F[i \in 0..10] == IF i = 0 THEN {}
                               ELSE IF \E l \in q : l[2] = i
                               THEN LET o == OpOf(at(i)) IN ApplyOp(o.op, F[i - 1], o.as[k]) ELSE F[i - 1]
         IN DataOf(F[10])
==================================================================================
