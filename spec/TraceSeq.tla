-------------------------------- MODULE TraceSeq --------------------------------
(* Validates sequential histories of the real code against the abstract index: *)
(* a multi-map  (credentials, keyword) -> set of values  (see Index.tla), whose *)
(* operations are atomic. Observables: results, what the search and compaction *)
(* callbacks are given, number and fate of the storage accesses, and size and  *)
(* digest of the tables at the points where the episode took a snapshot.       *)
EXTENDS TraceBase

VARIABLES ep, i,
  m,      \* <<cred, kw>> -> set of values
  e, u,   \* keywords that have / may have an entry: set of <<cred, kw>>
  cur,    \* operation in progress
  amb,    \* result to be settled by the probes that follow
  aux,    \* last snapshots
  bad
vars == <<ep, i, m, e, u, cur, amb, aux, bad>>

NoOp == [op |-> "none"]
NoAmb == [kind |-> "none"]

Init ==
  /\ ep \in Ids
  /\ i = 1
  /\ m = IF Has(Meta(ep), "m0")
         THEN [t \in {<<x[1], x[2]>> : x \in SeqSet(Meta(ep).m0)} |->
                 UNION {SeqSet(x[3]) : x \in {y \in SeqSet(Meta(ep).m0) : <<y[1], y[2]>> = t}}]
         ELSE <<>>
  /\ e = {t \in DOMAIN m : m[t] # {}}
  /\ u = {t \in DOMAIN m : m[t] = {}}
  /\ cur = NoOp
  /\ amb = NoAmb
  /\ aux = [dig |-> "", dirty |-> FALSE, etok |-> {}, eval |-> {}, ctok |-> {}, cval |-> {}, pre |-> 0]
  /\ bad = {}

E0 == Ev(ep)[i]
Flag(cond, tag) == IF cond THEN {} ELSE {<<tag, i>>}
Val(t) == At(m, t)
KeyOf(cr) == Meta(ep).keyof[cr]

\* --------------------------------------------------------------------------
Keep(S, drop) == {v \in S : v[1] = "p" \/ v[2] \notin drop}

Upd(f, g) == g @@ f

\* values of the records of an operation
Eff(op) == LET ks == KwsOf(op.as) IN
  [t \in {<<op.cred, k>> : k \in ks} |-> ApplyOp(op.op, Val(t), ValsOf(op.as, t[2]))]

Inv ==
  /\ E0.t = "inv"
  /\ cur' = [op |-> E0.op, e |-> E0, it |-> 0, fed |-> <<>>, todo |-> SeqSet(E0.kws), asked |-> {}, over |-> FALSE,
             cberr |-> FALSE, after |-> FALSE, flt |-> {}, etw |-> FALSE, nf |-> 0]
  /\ bad' = bad \cup Flag(amb = NoAmb \/ E0.arg = "probe", "machinery")
  /\ UNCHANGED <<m, e, u, amb, aux>>

\* what the interrupt callback is given at one iteration
Iter ==
  /\ E0.t = "int"
  /\ \E f \in {PairsToFun(E0.fed)} :
     LET cr == cur.e.cred
         free == cur.e.arg \in {"adopt", "probe"} /\ (cur.e.arg = "adopt" \/ amb # NoAmb)
         known == free \/ \A k \in DOMAIN f : f[k] = Val(<<cr, k>>)
         need == {k \in cur.todo \ DOMAIN cur.fed : Val(<<cr, k>>) # {}}
         \* a keyword may be given again (pointed to from its own iteration)
         nxt == TLCEval(UNION {Pointers(f[k]) : k \in DOMAIN f})
     IN /\ bad' = bad
             \cup Flag(~cur.over, "search.stop")
             \cup Flag(~DupKeys(E0.fed), "search.fed")
             \cup Flag(DOMAIN f \subseteq cur.todo, "search.level")
             \cup Flag(known, "search.fed")
             \cup Flag(free \/ need \subseteq DOMAIN f, "search.miss")
        /\ cur' = [cur EXCEPT !.it = @ + 1, !.fed = f @@ @, !.asked = @ \cup cur.todo, !.todo = nxt,
                              !.over = (E0.ans # "go"), !.cberr = (E0.ans = "err")]
  /\ UNCHANGED <<m, e, u, amb, aux>>

Flt ==
  /\ E0.t = "flt"
  /\ LET all == UNION {DataOf(Val(t)) : t \in {x \in DOMAIN m : x[1] = cur.e.cred}}
     IN bad' = bad \cup Flag(amb # NoAmb \/ SeqSet(E0.in) \subseteq all, "filter")
  /\ cur' = [cur EXCEPT !.flt = @ \cup SeqSet(E0.in), !.cberr = @ \/ (E0.ans = "err")]
  /\ UNCHANGED <<m, e, u, amb, aux>>

Db ==
  /\ E0.t = "db"
  /\ bad' = bad \cup Flag(cur.op # "search" \/ ~cur.over, "search.stop")
  \* what a compaction could not publish, it has to take back
  /\ cur' = IF E0.st # "ok" THEN [cur EXCEPT !.nf = @ + 1]
            ELSE IF E0.tab = "et" /\ E0.call \in {"insert", "upsert"} THEN [cur EXCEPT !.etw = TRUE] ELSE cur
  /\ UNCHANGED <<m, e, u, amb, aux>>

\* --------------------------- results -------------------------------------
Multi == Has(Meta(ep), "multi") /\ Meta(ep).multi
\* a compaction is done in one batch: all or nothing
OneBatch == Has(Meta(ep), "onebatch") /\ Meta(ep).onebatch
\* failures that are legitimate without any fault
Alien == \E t \in e \cup u : KeyOf(t[1]) # KeyOf(cur.e.cred)
Clash == \E t \in e \cup u : t[1] = cur.e.new /\ <<cur.e.cred, t[2]>> \in e \cup u
MayFail == \/ E0.hit > 0 \/ cur.cberr
           \/ cur.op = "compact" /\ (cur.e.cred = cur.e.new \/ Alien \/ Clash)
           \/ Multi /\ cur.op # "search"

Outcome ==
  Flag(E0.st \in {"ok", "err", "crash"}, "panic")
  \cup Flag(E0.st = "err" => MayFail, "spurious")
  \cup Flag((E0.hit > 0 \/ cur.cberr) => E0.st # "ok", "swallow")

ResWrite ==
  LET op == cur.e
      ks == {<<op.cred, k>> : k \in KwsOf(op.as)}
      n == {<<op.cred, k>> : k \in SeqSet(E0.new)}
  IN IF E0.st = "ok"
     THEN /\ m' = Upd(m, Eff(op))
          /\ bad' = bad \cup Outcome
               \cup Flag(n \subseteq ks /\ n \cap e = {} /\ (ks \ (e \cup u)) \subseteq n, "new")
               \cup Flag(~Multi, "multi")
          /\ e' = e \cup ks /\ u' = u \ ks
          /\ amb' = amb
          /\ aux' = [aux EXCEPT !.dirty = @ \/ ks # {}]
     ELSE /\ bad' = bad \cup Outcome
          /\ m' = m /\ e' = e /\ u' = u \cup (ks \ e)
          /\ amb' = [kind |-> "write", need |-> {op.cred}, obs |-> <<>>, cand |-> {m, Upd(m, Eff(op))}]
          /\ aux' = [aux EXCEPT !.dirty = @ \/ (ks # {} /\ ~Multi)]

ResSearch ==
  \E out \in {PairsToFun(E0.out)} :
  LET op == cur.e
      probe == op.arg \in {"probe", "adopt"}
      obs == [t \in {<<op.cred, k>> : k \in SeqSet(op.kws)} |-> At(cur.fed, t[2])]
      want == {k \in cur.todo \ DOMAIN cur.fed : Val(<<op.cred, k>>) # {}}
      okOut == /\ ~DupKeys(E0.out)
               /\ DOMAIN out \subseteq SeqSet(op.kws)
               /\ \A k \in SeqSet(op.kws) : At(out, k) = Closure(cur.fed, k)
      b0 == bad \cup Outcome
  IN /\ IF E0.st = "ok"
        THEN IF probe
             THEN IF op.arg = "adopt"
                  THEN /\ m' = Upd(m, obs) /\ amb' = amb /\ bad' = b0 /\ e' = e \cup {t \in DOMAIN obs : obs[t] # {}} /\ u' = u
                  ELSE IF amb = NoAmb
                  THEN /\ bad' = b0 \cup Flag(okOut, "search.out") /\ UNCHANGED <<m, amb, e, u>>
                  ELSE LET o2 == obs @@ amb.obs
                           left == amb.need \ {op.cred}
                       IN IF left # {}
                          THEN amb' = [amb EXCEPT !.need = left, !.obs = o2] /\ bad' = b0 /\ UNCHANGED <<m, e, u>>
                          ELSE /\ amb' = NoAmb
                               /\ m' = Upd(m, o2)
                               /\ IF amb.kind = "write"
                                  THEN /\ bad' = b0 \cup Flag(\E c \in amb.cand : \A t \in DOMAIN o2 : o2[t] = At(c, t), "aon")
                                       /\ UNCHANGED <<e, u>>
                                  ELSE /\ bad' = b0 \cup
                                            LET ok(k) == LET o == At(o2, <<amb.old, k>>)
                                                             n == At(o2, <<amb.new, k>>)
                                                             b == Val(<<amb.old, k>>)
                                                             n0 == Val(<<amb.new, k>>)
                                                             f == Keep(b, amb.drop)
                                                         IN IF amb.done
                                                            THEN o = {} /\ n \in {b \cup n0, f \cup n0}
                                                                 /\ (amb.full => n = f \cup n0)
                                                                 /\ (n # b \cup n0 => DataOf(b) \subseteq amb.flt)
                                                            ELSE \/ o = b /\ n \in {n0, n0 \cup b, n0 \cup f}
                                                                 \/ n \in {n0 \cup b, n0 \cup f}
                                            IN Flag(\A k \in {t[2] : t \in DOMAIN o2} : ok(k), IF amb.done THEN "compact" ELSE "lost")
                                       /\ e' = {x \in e : x[1] # amb.old} \cup {t \in DOMAIN o2 : o2[t] # {}}
                                       /\ u' = IF amb.full THEN {x \in u : x[1] # amb.old}
                                               ELSE ({x \in u : x[1] # amb.old} \cup {<<amb.new, t[2]>> : t \in {x \in e \cup u : x[1] = amb.old}}
                                                     \cup (IF amb.done THEN {} ELSE {x \in e \cup u : x[1] = amb.old}))
                                                    \ {t \in DOMAIN o2 : o2[t] # {}}
             ELSE /\ bad' = b0
                       \cup Flag(okOut, "search.out")
                       \cup Flag(cur.over \/ want = {}, "search.miss")
                       \* every iteration is submitted to the callback, even if nothing was found
                       \cup Flag(cur.over \/ cur.todo \subseteq cur.asked, "search.calls")
                  /\ UNCHANGED <<m, amb, e, u>>
        ELSE /\ bad' = b0 \cup Flag(~probe \/ E0.hit > 0, "probe")
             /\ amb' = IF probe THEN NoAmb ELSE amb
             /\ UNCHANGED <<m, e, u>>
     /\ aux' = aux

ResCompact ==
  LET op == cur.e
      drop == SeqSet(op.drop)
      old == {t \in DOMAIN m : t[1] = op.cred}
      all == UNION {DataOf(m[t]) : t \in old}
      refuse == op.cred = op.new
      moved == [t \in old \cup {<<op.new, t[2]>> : t \in old} |->
                  IF t[1] = op.cred /\ t[1] # op.new THEN {}
                  ELSE Val(<<op.new, t[2]>>) \cup Keep(Val(<<op.cred, t[2]>>), drop)]
      b0 == bad \cup Outcome
  IN IF E0.st = "ok"
     THEN /\ bad' = b0 \cup Flag(~refuse, "refuse") \cup Flag(~Multi, "multi")
                       \cup Flag(op.rate = "full" => cur.flt = all, "filter")
          /\ IF op.rate = "full" /\ op.arg # "probe"
             THEN /\ m' = Upd(m, moved)
                  /\ e' = {t \in e : t[1] # op.cred} \cup {t \in DOMAIN moved : moved[t] # {}}
                  /\ u' = {t \in u : t[1] # op.cred}
                  /\ amb' = amb
             ELSE /\ amb' = [kind |-> "compact", need |-> {op.cred, op.new}, obs |-> <<>>, old |-> op.cred,
                             new |-> op.new, drop |-> drop, done |-> TRUE, full |-> op.rate = "full", flt |-> cur.flt]
                  /\ UNCHANGED <<m, e, u>>
          /\ aux' = [aux EXCEPT !.dirty = TRUE]
     ELSE /\ bad' = b0 \cup Flag(refuse => E0.calls = 0, "refuse")
          /\ IF refuse THEN amb' = amb /\ aux' = aux
             ELSE /\ amb' = [kind |-> "compact", need |-> {op.cred, op.new}, obs |-> <<>>, old |-> op.cred,
                             new |-> op.new, drop |-> drop, done |-> FALSE, full |-> FALSE, flt |-> cur.flt]
                  /\ aux' = [aux EXCEPT !.dirty = @ \/ (IF OneBatch /\ E0.hit = 0 /\ E0.st = "err" THEN FALSE
                                                          ELSE cur.etw \/ E0.hit > 1 \/ cur.nf > 1 \/ E0.st # "err")]
          /\ UNCHANGED <<m, e, u>>

Res ==
  /\ E0.t = "res"
  /\ CASE cur.op \in {"add", "del"} -> ResWrite
       [] cur.op = "search" -> ResSearch
       [] cur.op = "compact" -> ResCompact
       [] OTHER -> bad' = bad \cup {<<"machinery", i>>} /\ UNCHANGED <<m, e, u, amb, aux>>
  /\ cur' = NoOp

\* ------------------------------ snapshots --------------------------------
BlocksOfVal(v) == IF v[2] \in DOMAIN Meta(ep).len THEN BlocksOf(Meta(ep).len[v[2]]) ELSE 0
RECURSIVE SumBlocks(_)
SumBlocks(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN BlocksOfVal(x) + SumBlocks(S \ {x})
RECURSIVE SumLines(_)
SumLines(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE
                                     IN CeilDiv(SumBlocks(m[x]), LineWidth) + SumLines(T \ {x})
Gone == IF "gone" \in DOMAIN Meta(ep) THEN SeqSet(Meta(ep).gone) ELSE {}
Live == {t \in DOMAIN m : m[t] # {}}

Snap ==
  /\ E0.t = "snap"
  /\ LET et == {x[1] : x \in SeqSet(E0.etl)}  ev == {x[2] : x \in SeqSet(E0.etl)}
         ct == {x[1] : x \in SeqSet(E0.ctl)}  cv == {x[2] : x \in SeqSet(E0.ctl)}
     IN /\ bad' = bad
             \cup Flag(aux.dig = "" \/ aux.dirty \/ aux.dig = E0.dig, "changed")
             \cup (IF E0.tag = "min" THEN Flag(E0.et = Cardinality(Live), "min.et")
                                          \cup Flag(E0.ct = SumLines(Live), "min.ct")
                                          \cup Flag(\A t \in Live : \A v \in m[t] : v[1] = "d" => v[2] \notin Gone, "gone") ELSE {})
             \cup (IF E0.tag \in {"post", "rekeyfull", "rekeypart"} THEN Flag(E0.ct <= aux.pre, "grow") ELSE {})
             \cup (IF E0.tag \in {"rekeyfull", "rekeypart"}
                   THEN Flag(et \cap aux.etok = {} /\ ev \cap aux.eval = {}, "rekey.et")
                        \cup Flag(\A x \in SeqSet(E0.ctl) : (x[1] \in aux.ctok) <=> (x[2] \in aux.cval), "rekey.ct")
                        \cup (IF E0.tag = "rekeyfull" THEN Flag(ct \cap aux.ctok = {} /\ cv \cap aux.cval = {}, "rekey.ct") ELSE {})
                   ELSE {})
        /\ aux' = [aux EXCEPT !.dig = E0.dig, !.dirty = FALSE, !.pre = E0.ct,
                     !.etok = et \cup @, !.eval = ev \cup @, !.ctok = ct \cup @, !.cval = cv \cup @]
  /\ UNCHANGED <<m, e, u, cur, amb>>

Other ==
  /\ E0.t \notin {"inv", "int", "flt", "db", "res", "snap"}
  /\ bad' = bad \cup Flag(E0.t \notin {"die", "hang"}, "panic")
                \cup (IF E0.t = "reload" THEN Flag(E0.same, "reload") ELSE {})
  /\ UNCHANGED <<m, e, u, cur, amb, aux>>

Next ==
  /\ i <= Len(Ev(ep))
  /\ i' = i + 1 /\ ep' = ep
  /\ (Inv \/ Iter \/ Flt \/ Db \/ Res \/ Snap \/ Other)
  /\ i' > Len(Ev(ep)) => Report(ep, bad')
Spec == Init /\ [][Next]_vars
=================================================================================
