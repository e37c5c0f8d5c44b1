-------------------------------- MODULE Findex --------------------------------
(* Design specification of Findex at the granularity of its storage accesses. *)
(*                                                                            *)
(* Clients are stateless programs that share two tables:                      *)
(*   et  the Entry Table: (credentials, keyword) -> [seed, last, id]          *)
(*   ct  the Chain Table: (seed, position) -> link                            *)
(* A link carries all that one operation does to one keyword (how it is cut   *)
(* into fixed-size lines is the subject of Codec.tla). `id` identifies the    *)
(* ciphertext, the subject of the compare-and-swap of the conditional upsert. *)
(*                                                                            *)
(* Every action is exactly one storage access of the implementation (and the  *)
(* local computation that follows), so that a behaviour of this specification *)
(* is a schedule for the real code: see MCExport.                             *)
EXTENDS FindexCore, Functions, FiniteSetsExt, SequencesExt

CONSTANTS
  Clients,      \* names of the clients
  Progs,        \* set of programs [Clients -> Seq(operation)]
  Inits,        \* set of Seq(operation) already applied, sequentially
  Kws, Vals, Creds,
  KeyOf,        \* [Creds -> key]
  MaxFaults,    \* number of faults that may be injected
  FaultKinds,   \* SUBSET {"fail", "failafter", "crash"}
  BatchSize,    \* entries per compaction batch
  Design        \* set of design choices; see below

(* Design choices of the code that can be switched to check that they matter: *)
(*   "cas"         the upsert is conditional                                  *)
(*   "own-revert"  a failed compaction reverts only what it wrote             *)
(*   "label-check" a compaction ignores entries of other labels               *)
(*   "insert-first" a compaction writes the new lines before removing the old *)
(*   "links-first" a compaction writes the new links before the new entries   *)
CodeDesign == {"cas", "own-revert", "label-check", "insert-first", "links-first"}

VARIABLES
  prog, init0,  \* the program and the history under study, chosen initially
  et, ct,
  fresh,        \* source of fresh seeds and ciphertext identities
  pc, loc, ip,  \* control state, local variables, program index of the clients
  faults,       \* faults left
  lin,          \* ghost: linearizability monitors of the associations
  tas,          \* ghost: linearizability monitors of "is indexed"
  ever,         \* ghost: associations ever added, per credentials and keyword
  res,          \* ghost: results of the operations, per client
  trig,         \* ghost: compactions begun: [c |-> content before, ...]
  risk          \* ghost: keywords modified in the window of a compaction (see InWindow)

vars == <<prog, init0, et, ct, fresh, pc, loc, ip, faults, lin, tas, ever, res, trig, risk>>

None == [seed |-> 0, last |-> 0, id |-> 0]
Toks == Creds \X Kws
Stored == {t \in Toks : et[t] # None}

(* ------------------------------ the content ------------------------------ *)
ChainOf(e, links) ==
  LET RECURSIVE up(_)
      up(i) == IF i > e.last THEN <<>>
               ELSE (IF <<e.seed, i>> \in DOMAIN links THEN <<links[<<e.seed, i>>]>> ELSE <<>>) \o up(i + 1)
  IN up(1)
Read(e, links) == IF e = None THEN {} ELSE FoldChain(ChainOf(e, links), {})
Content(cred, k) == Read(et[<<cred, k>>], ct)
ContentMap(cred) == [k \in Kws |-> Content(cred, k)]

(* ------------------------------ initial state ---------------------------- *)
\* applies one finished operation to [et, ct, fresh]
Applied(s, op) ==
  LET ks == DOMAIN op.as
      n  == Cardinality(ks)
      ix == CHOOSE f \in [ks -> 1..n] : \A a, b \in ks : a # b => f[a] # f[b]
      new == [k \in ks |->
                LET e == s.et[<<op.cred, k>>]
                IN IF e = None THEN [seed |-> s.fresh + ix[k], last |-> 1, id |-> s.fresh + ix[k]]
                   ELSE [e EXCEPT !.last = @ + 1, !.id = s.fresh + ix[k]]]
  IN [et |-> [t \in Toks |-> IF t[1] = op.cred /\ t[2] \in ks THEN new[t[2]] ELSE s.et[t]],
      ct |-> [x \in {<<new[k].seed, new[k].last>> : k \in ks} |->
                LET k == CHOOSE y \in ks : <<new[y].seed, new[y].last>> = x
                IN [op |-> op.op, vals |-> op.as[k]]] @@ s.ct,
      fresh |-> s.fresh + n,
      ever |-> [t \in Toks |-> IF t[1] = op.cred /\ t[2] \in ks /\ op.op = "add"
                               THEN s.ever[t] \cup op.as[t[2]] ELSE s.ever[t]]]
RECURSIVE AppliedAll(_, _)
AppliedAll(s, ops) == IF ops = <<>> THEN s ELSE AppliedAll(Applied(s, Head(ops)), Tail(ops))

StartOf(h) == AppliedAll([et |-> [t \in Toks |-> None], ct |-> <<>>, fresh |-> 0,
                     ever |-> [t \in Toks |-> {}]], h)
Start == StartOf(init0)

Init ==
  /\ prog \in Progs /\ init0 \in Inits
  /\ et = Start.et /\ ct = Start.ct /\ fresh = Start.fresh /\ ever = Start.ever
  /\ pc = [c \in Clients |-> "idle"]
  /\ loc = [c \in Clients |-> <<>>]
  /\ ip = [c \in Clients |-> 1]
  /\ faults = MaxFaults
  /\ lin = [t \in Toks |-> [v \in Vals |-> LinInit(v \in Read(Start.et[t], Start.ct))]]
  /\ tas = [t \in Toks |-> LinInit(Start.et[t] # None)]
  /\ res = [c \in Clients |-> <<>>]
  /\ trig = [c \in Clients |-> <<>>]
  /\ risk = {}

Op(c) == prog[c][ip[c]]
HasOp(c) == ip[c] <= Len(prog[c])

(* --------------------------- ghost bookkeeping --------------------------- *)
\* operations in progress after this step begins operation c
Busy(c) == {d \in Clients : pc[d] \notin {"idle", "dead"}} \cup {c}
KindV(d, t, v) ==
  LET op == Op(d) IN
  CASE op.op \in {"add", "del"} ->
         IF op.cred = t[1] /\ t[2] \in DOMAIN op.as /\ v \in op.as[t[2]]
         THEN IF op.op = "add" THEN "set1" ELSE "set0" ELSE "no"
    [] op.op = "search" ->
         IF op.cred = t[1] /\ t[2] \in op.kws THEN "read" ELSE "no"
    [] OTHER -> "no"
KindT(d, t) ==
  LET op == Op(d) IN
  IF op.op \in {"add", "del"} /\ op.cred = t[1] /\ t[2] \in DOMAIN op.as THEN "tas" ELSE "no"
PendV(c, t, v) == {p \in {<<d, KindV(d, t, v)>> : d \in Busy(c)} : p[2] # "no"}
PendT(c, t) == {p \in {<<d, KindT(d, t)>> : d \in Busy(c)} : p[2] # "no"}

\* monitors after operation of c returns: newk = keywords reported as new
ReturnWrite(c, newk) ==
  /\ lin' = [t \in Toks |-> [v \in Vals |->
               IF KindV(c, t, v) # "no" THEN LinReturnAny(lin[t][v], PendV(c, t, v), c) ELSE lin[t][v]]]
  /\ tas' = [t \in Toks |->
               IF KindT(c, t) # "no" THEN LinReturn(tas[t], PendT(c, t), c, t[2] \notin newk) ELSE tas[t]]
ReturnRead(c, got) ==
  /\ lin' = [t \in Toks |-> [v \in Vals |->
               IF KindV(c, t, v) # "no" THEN LinReturn(lin[t][v], PendV(c, t, v), c, v \in At(got, t[2])) ELSE lin[t][v]]]
  /\ UNCHANGED tas
Abort(c) ==
  /\ lin' = [t \in Toks |-> [v \in Vals |->
               IF KindV(c, t, v) # "no" THEN LinAbort(lin[t][v], PendV(c, t, v), c) ELSE lin[t][v]]]
  /\ tas' = [t \in Toks |->
               IF KindT(c, t) # "no" THEN LinAbort(tas[t], PendT(c, t), c) ELSE tas[t]]
\* a step in the middle of an operation only lets time pass: to keep the
\* real-time order, pending operations may take effect at any time (LinClose is
\* applied at each return), and an operation that begins is not in the set of
\* pending operations of the returns that precede it
Quiet == UNCHANGED <<lin, tas>>

Return(c, r) ==
  /\ pc' = [pc EXCEPT ![c] = "idle"]
  /\ loc' = [loc EXCEPT ![c] = <<>>]
  /\ ip' = [ip EXCEPT ![c] = @ + 1]
  /\ res' = [res EXCEPT ![c] = Append(@, r)]
Goto(c, p, l) ==
  /\ pc' = [pc EXCEPT ![c] = p]
  /\ loc' = [loc EXCEPT ![c] = l]
  /\ UNCHANGED <<ip, res>>
\* pub: the new entries had been published by a compaction
Fail(c) == Return(c, [st |-> "err", pub |-> pc[c] \in {"cdelct", "cdelet"}]) /\ Abort(c)

Spend(d) == IF d = "go" THEN UNCHANGED faults ELSE faults > 0 /\ d \in FaultKinds /\ faults' = faults - 1

(* -------------------------- additions, deletions ------------------------- *)
WFetch(c, d) ==
  /\ pc[c] = "idle" /\ HasOp(c) /\ Op(c).op \in {"add", "del"}
  /\ Spend(d)
  /\ IF d = "go"
     THEN /\ Goto(c, "wupsert", [old |-> [k \in DOMAIN Op(c).as |-> et[<<Op(c).cred, k>>]],
                                 todo |-> DOMAIN Op(c).as, new |-> {}, links |-> <<>>])
          /\ Quiet
          /\ ever' = [t \in Toks |-> IF t[1] = Op(c).cred /\ t[2] \in DOMAIN Op(c).as /\ Op(c).op = "add"
                                     THEN ever[t] \cup Op(c).as[t[2]] ELSE ever[t]]
     ELSE Fail(c) /\ UNCHANGED ever
  /\ UNCHANGED <<et, ct, fresh, trig>>

WUpsert(c, d) ==
  /\ pc[c] = "wupsert"
  /\ Spend(d)
  /\ LET l == loc[c]
         cred == Op(c).cred
         cur(k) == et[<<cred, k>>]
         gone == \E k \in l.todo : l.old[k] # None /\ cur(k) = None
         acc == IF "cas" \in Design THEN {k \in l.todo : cur(k) = l.old[k]} ELSE l.todo
         n == Cardinality(l.todo)
         ix == CHOOSE f \in [l.todo -> 1..n] : \A a, b \in l.todo : a # b => f[a] # f[b]
         ne == [k \in l.todo |->
                  IF l.old[k] = None THEN [seed |-> fresh + ix[k], last |-> 1, id |-> fresh + ix[k]]
                  ELSE [l.old[k] EXCEPT !.last = @ + 1, !.id = fresh + ix[k]]]
         links == [x \in {<<ne[k].seed, ne[k].last>> : k \in acc} |->
                     LET k == CHOOSE y \in acc : <<ne[y].seed, ne[y].last>> = x
                     IN [op |-> Op(c).op, vals |-> Op(c).as[k]]] @@ l.links
         rest == l.todo \ acc
         nl == [old |-> [k \in DOMAIN Op(c).as |-> IF k \in rest THEN cur(k) ELSE l.old[k]],
                todo |-> rest,
                new |-> (l.new \cup {k \in acc : l.old[k] = None}),
                links |-> links]
     IN IF d = "fail" \/ gone
        THEN Fail(c) /\ UNCHANGED <<et, fresh>>
        ELSE /\ et' = [t \in Toks |-> IF t[1] = cred /\ t[2] \in acc THEN ne[t[2]] ELSE et[t]]
             /\ fresh' = fresh + n
             /\ IF d = "failafter" THEN Fail(c)
                ELSE Goto(c, IF rest = {} THEN "winsert" ELSE "wupsert", nl) /\ Quiet
  /\ UNCHANGED <<ct, ever, trig>>

WInsert(c, d) ==
  /\ pc[c] = "winsert"
  /\ Spend(d)
  /\ LET clash == DOMAIN loc[c].links \cap DOMAIN ct # {} IN
     IF d = "fail" \/ clash
     THEN Fail(c) /\ UNCHANGED ct
     ELSE /\ ct' = loc[c].links @@ ct
          /\ IF d = "failafter" THEN Fail(c)
             ELSE Return(c, [st |-> "ok", new |-> loc[c].new]) /\ ReturnWrite(c, loc[c].new)
  /\ UNCHANGED <<et, fresh, ever, trig>>

(* -------------------------------- searches ------------------------------- *)
SFetch(c, d) ==
  /\ \/ pc[c] = "idle" /\ HasOp(c) /\ Op(c).op = "search"
     \/ pc[c] = "sfetch"
  /\ Spend(d)
  /\ LET l == IF pc[c] = "idle"
              THEN [tags |-> Op(c).kws, graph |-> <<>>, n |-> 0, ent |-> <<>>] ELSE loc[c]
     IN IF d # "go" THEN Fail(c)
        ELSE Goto(c, "slinks", [l EXCEPT !.ent = [k \in {k \in l.tags : et[<<Op(c).cred, k>>] # None} |->
                                                     et[<<Op(c).cred, k>>]]]) /\ Quiet
  /\ UNCHANGED <<et, ct, fresh, ever, trig>>

SLinks(c, d) ==
  /\ pc[c] = "slinks"
  /\ Spend(d)
  /\ LET l == loc[c]
         fed == [k \in DOMAIN l.ent |-> Read(l.ent[k], ct)]
         n == l.n + 1
         ptr == UNION {Pointers(fed[k]) : k \in DOMAIN fed} \ DOMAIN l.graph
         stop == Op(c).stop # 0 /\ n >= Op(c).stop
         graph == fed @@ l.graph
         tags == IF stop THEN {} ELSE ptr
     IN IF d # "go" THEN Fail(c)
        ELSE IF tags = {}
        THEN /\ Return(c, [st |-> "ok", out |-> [k \in Op(c).kws |-> Closure(graph, k)]])
             /\ ReturnRead(c, graph)
        ELSE Goto(c, "sfetch", [tags |-> tags, graph |-> graph, n |-> n, ent |-> <<>>]) /\ Quiet
  /\ UNCHANGED <<et, ct, fresh, ever, trig>>

(* ------------------------------- compaction ------------------------------ *)
\* op: [op |-> "compact", old, new, drop (values), full (BOOLEAN)]
CDump(c, d) ==
  /\ pc[c] = "idle" /\ HasOp(c) /\ Op(c).op = "compact"
  /\ Spend(d)
  /\ IF d # "go" THEN Fail(c) /\ UNCHANGED trig
     ELSE \E tgt \in IF Op(c).full THEN {Stored} ELSE SUBSET Stored :
          \E b \in {s \in SUBSET Stored : Cardinality(s) = IF Cardinality(Stored) < BatchSize
                                                           THEN Cardinality(Stored) ELSE BatchSize} :
            /\ Goto(c, "cfetch", [tgt |-> tgt, batch |-> b, left |-> Stored \ b])
            /\ Quiet
            /\ trig' = [trig EXCEPT ![c] = ContentMap(Op(c).old)]
  /\ UNCHANGED <<et, ct, fresh, ever>>

\* entries of the batch that belong to the compacted index
CFetch(c, d) ==
  /\ pc[c] = "cfetch"
  /\ Spend(d)
  /\ LET b == {t \in loc[c].batch : et[t] # None}
         alien == \E t \in b : KeyOf[t[1]] # KeyOf[Op(c).old]
         mine == IF "label-check" \in Design THEN {t \in b : t[1] = Op(c).old} ELSE b
     IN IF d # "go" \/ alien THEN Fail(c)
        ELSE Goto(c, "clinks", [ent |-> [t \in mine |-> et[t]]] @@ loc[c]) /\ Quiet
  /\ UNCHANGED <<et, ct, fresh, ever, trig>>

CLinks(c, d) ==
  /\ pc[c] = "clinks"
  /\ Spend(d)
  /\ LET l == loc[c]
         T == {t \in DOMAIN l.ent : t \in l.tgt}
         rem == [t \in T |-> {v \in Read(l.ent[t], ct) : v \notin Op(c).drop}]
         keep == {t \in DOMAIN l.ent : t \in T => rem[t] # {}}
         n == Cardinality(T)
         ix == CHOOSE f \in [T -> 1..n] : \A a, b \in T : a # b => f[a] # f[b]
         m == Cardinality(keep)
         jx == CHOOSE f \in [keep -> 1..m] : \A a, b \in keep : a # b => f[a] # f[b]
         ne(t) == IF t \in T THEN [seed |-> fresh + ix[t], last |-> 1, id |-> fresh + n + jx[t]]
                  ELSE [l.ent[t] EXCEPT !.id = fresh + n + jx[t]]
         \* two kept entries of the same keyword would get the same token: the
         \* last one computed wins (only possible without "label-check")
         nks == {t[2] : t \in keep}
         newent == [k \in nks |-> ne(CHOOSE t \in keep : t[2] = k)]
     IN IF d # "go" THEN Fail(c) /\ UNCHANGED fresh
        ELSE /\ Goto(c, IF "insert-first" \in Design
                        THEN IF "links-first" \in Design THEN "cinsct" ELSE "cinset"
                        ELSE "cdelct",
                     [nlinks |-> [x \in {<<fresh + ix[t], 1>> : t \in {u \in T : rem[u] # {}}} |->
                                    [op |-> "add", vals |-> rem[CHOOSE t \in T : fresh + ix[t] = x[1]]]],
                      nent |-> newent,
                      olinks |-> UNION {{<<l.ent[t].seed, i>> : i \in 1..l.ent[t].last} : t \in T},
                      oent |-> DOMAIN l.ent] @@ l)
             /\ Quiet
             /\ fresh' = fresh + n + m
  /\ UNCHANGED <<et, ct, ever, trig>>

NewTok(c) == {<<Op(c).new, k>> : k \in DOMAIN loc[c].nent}
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

CInsCT(c, d) ==
  /\ pc[c] = "cinsct"
  /\ Spend(d)
  /\ IF d # "fail" THEN ct' = loc[c].nlinks @@ ct ELSE UNCHANGED ct
  /\ Goto(c, IF d # "go" THEN "cundoct"
             ELSE IF "links-first" \in Design THEN "cinset" ELSE "cdelct", loc[c]) /\ Quiet
  /\ UNCHANGED <<et, fresh, ever, trig>>

\* clean-up after the links could not be written
CUndoCT(c, d) ==
  /\ pc[c] = "cundoct"
  /\ Spend(d)
  /\ IF d # "fail" THEN ct' = Without(ct, DOMAIN loc[c].nlinks) ELSE UNCHANGED ct
  /\ Fail(c)
  /\ UNCHANGED <<et, fresh, ever, trig>>

CInsET(c, d) ==
  /\ pc[c] = "cinset"
  /\ Spend(d)
  /\ LET clash == \E t \in NewTok(c) : et[t] # None
         done == ~clash /\ d # "fail"
     IN /\ IF done THEN et' = [t \in Toks |-> IF t \in NewTok(c) THEN loc[c].nent[t[2]] ELSE et[t]]
           ELSE UNCHANGED et
        /\ Goto(c, IF d = "go" /\ done
                   THEN IF "links-first" \in Design THEN "cdelct" ELSE "cinsct"
                   ELSE IF "own-revert" \in Design THEN "cundofetch" ELSE "cundodelet",
                [own |-> NewTok(c)] @@ loc[c])
        /\ Quiet
  /\ UNCHANGED <<ct, fresh, ever, trig>>

\* clean-up after the entries could not be written
CUndoFetch(c, d) ==
  /\ pc[c] = "cundofetch"
  /\ Spend(d)
  /\ IF d # "go" THEN Fail(c)
     ELSE Goto(c, "cundodelet", [loc[c] EXCEPT !.own = {t \in NewTok(c) : et[t] = loc[c].nent[t[2]]}]) /\ Quiet
  /\ UNCHANGED <<et, ct, fresh, ever, trig>>
CUndoDelET(c, d) ==
  /\ pc[c] = "cundodelet"
  /\ Spend(d)
  /\ IF d # "fail" THEN et' = [t \in Toks |-> IF t \in loc[c].own THEN None ELSE et[t]] ELSE UNCHANGED et
  /\ IF d = "go" THEN Goto(c, "cundoct", loc[c]) /\ Quiet ELSE Fail(c)
  /\ UNCHANGED <<ct, fresh, ever, trig>>

CDelCT(c, d) ==
  /\ pc[c] = "cdelct"
  /\ Spend(d)
  /\ IF d # "fail" THEN ct' = Without(ct, loc[c].olinks) ELSE UNCHANGED ct
  /\ IF d # "go" THEN Fail(c) ELSE Goto(c, "cdelet", loc[c]) /\ Quiet
  /\ UNCHANGED <<et, fresh, ever, trig>>

CDelET(c, d) ==
  /\ pc[c] = "cdelet"
  /\ Spend(d)
  /\ IF d # "fail" THEN et' = [t \in Toks |-> IF t \in loc[c].oent THEN None ELSE et[t]] ELSE UNCHANGED et
  /\ LET l == loc[c] IN
     IF d # "go" THEN Fail(c)
     ELSE IF "insert-first" \notin Design /\ l.left = {} /\ "nlinks" \in DOMAIN l
     THEN Goto(c, "cinsct", l) /\ Quiet
     ELSE IF Cardinality(l.batch) < BatchSize  \* the last batch is never full
     THEN Return(c, [st |-> "ok"]) /\ Quiet
     ELSE \E b \in {s \in SUBSET l.left : Cardinality(s) = IF Cardinality(l.left) < BatchSize
                                                          THEN Cardinality(l.left) ELSE BatchSize} :
            Goto(c, "cfetch", [tgt |-> l.tgt, batch |-> b, left |-> l.left \ b]) /\ Quiet
  /\ UNCHANGED <<ct, fresh, ever, trig>>

(* --------------------------------- death --------------------------------- *)
Crash(c) ==
  /\ pc[c] \notin {"idle", "dead"}
  /\ "crash" \in FaultKinds /\ faults > 0 /\ faults' = faults - 1
  /\ pc' = [pc EXCEPT ![c] = "dead"]
  /\ res' = [res EXCEPT ![c] = Append(@, [st |-> "crash"])]
  /\ loc' = [loc EXCEPT ![c] = <<>>]
  /\ Abort(c)
  /\ UNCHANGED <<prog, init0, et, ct, fresh, ip, ever, trig, risk>>

\* the storage access that the client does next
CallOf(c) ==
  CASE pc[c] = "idle" /\ HasOp(c) -> IF Op(c).op = "compact" THEN "et.dump" ELSE "et.fetch"
    [] pc[c] \in {"sfetch", "cfetch", "cundofetch"} -> "et.fetch"
    [] pc[c] \in {"slinks", "clinks"} -> "ct.fetch"
    [] pc[c] = "wupsert" -> "et.upsert"
    [] pc[c] \in {"winsert", "cinsct"} -> "ct.insert"
    [] pc[c] = "cinset" -> "et.insert"
    [] pc[c] \in {"cundoct", "cdelct"} -> "ct.delete"
    [] pc[c] \in {"cundodelet", "cdelet"} -> "et.delete"
    [] OTHER -> "none"

\* A compaction does not see a modification of an entry that it has already
\* read, nor links that are not written yet when it reads the chain, and then
\* removes both: an acknowledged modification made in this window is lost (P20,
\* known finding). Everything else is kept: NoLostUpdateElse.
InWindow(d) == pc[d] \in {"clinks", "cinsct", "cinset", "cdelct", "cdelet"}
Accepted(d) == {k \in DOMAIN Op(d).as : k \notin loc[d].todo}
Risk(c) ==
  risk' = risk \cup
    (CASE pc[c] = "wupsert" -> {k \in loc[c].todo : loc[c].old[k] # None /\ \E d \in Clients : InWindow(d) /\ Op(d).old = Op(c).cred}
       [] pc[c] = "clinks" -> UNION {Accepted(d) : d \in {x \in Clients : pc[x] \in {"wupsert", "winsert"} /\ Op(x).cred = Op(c).old}}
       [] OTHER -> {})

Step(c, d) == UNCHANGED <<prog, init0>> /\ Risk(c) /\ (
  \/ WFetch(c, d) \/ WUpsert(c, d) \/ WInsert(c, d)
  \/ SFetch(c, d) \/ SLinks(c, d)
  \/ CDump(c, d) \/ CFetch(c, d) \/ CLinks(c, d) \/ CInsCT(c, d) \/ CInsET(c, d)
  \/ CUndoCT(c, d) \/ CUndoFetch(c, d) \/ CUndoDelET(c, d) \/ CDelCT(c, d) \/ CDelET(c, d))

Decisions == {"go"} \cup (FaultKinds \ {"crash"})
AllDone == \A c \in Clients : pc[c] = "dead" \/ (pc[c] = "idle" /\ ~HasOp(c))
Next == (\E c \in Clients, d \in Decisions : Step(c, d)) \/ (\E c \in Clients : Crash(c))
        \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Fairness == \A c \in Clients : WF_vars(Step(c, "go"))
FairSpec == Spec /\ Fairness

(* ------------------------------- properties ------------------------------ *)
TypeOK ==
  /\ \A t \in Toks : et[t].last >= 0
  /\ faults \in 0..MaxFaults

\* every entry leads to its own chain
SeedsUnique == \A s, t \in Toks : s # t /\ et[s] # None /\ et[t] # None /\ s[1] = t[1] => et[s].seed # et[t].seed

\* P05: the observed results are those of a sequential order of each association
Linearizable == \A t \in Toks, v \in Vals : lin[t][v] # {}
\* P04
NewOnce == \A t \in Toks : tas[t] # {}
\* P01, P05, P06: nothing is readable that was never added (pointers included)
NoInvention == \A cr \in Creds, k \in Kws :
                 Content(cr, k) \subseteq UNION {ever[<<o, k>>] : o \in Creds}
\* P05, P06: when everybody is done the content is an explained one
Settled == AllDone => \A t \in Toks, v \in Vals :
             (Content(t[1], t[2]) = {} /\ \E c \in Clients : trig[c] # <<>>)
             \/ \E cfg \in LinClose(lin[t][v], {}) : cfg.b = (v \in Content(t[1], t[2]))
\* P05: no operation fails without a fault
NoSpuriousFailure ==
  (MaxFaults = 0) => \A c \in Clients : \A i \in DOMAIN res[c] : res[c][i].st = "ok"

\* P09: at every instant everything is readable under old or new credentials
\* (only meaningful when no writer runs at the same time)
Recoverable ==
  \A c \in Clients : trig[c] # <<>> =>
    LET i == IF pc[c] = "idle" \/ pc[c] = "dead" THEN (IF pc[c] = "dead" THEN ip[c] ELSE ip[c] - 1) ELSE ip[c]
        op == prog[c][i]
    IN \A k \in Kws :
         \/ Content(op.old, k) = trig[c][k]
         \/ \E F \in {trig[c][k] \ op.drop, trig[c][k]} :
              /\ (op.full => F = trig[c][k] \ op.drop)
              /\ F \subseteq Content(op.new, k)

\* P20, P09: nothing added before or acknowledged during a compaction vanishes
\* (credentials old and new together; only for programs that never delete)
NoLostUpdate ==
  AllDone => \A k \in Kws, v \in Vals :
     (\/ \E c \in Clients : \E i \in DOMAIN res[c] :
           /\ prog[c][i].op = "add" /\ res[c][i].st = "ok"
           /\ k \in DOMAIN prog[c][i].as /\ v \in prog[c][i].as[k]
      \/ \E t \in Toks : t[2] = k /\ v \in Read(Start.et[t], Start.ct))
     => \E cr \in Creds : v \in Content(cr, k)

DeletedBy(k, v) == \E c \in Clients : \E i \in DOMAIN prog[c] :
                      prog[c][i].op = "del" /\ k \in DOMAIN prog[c][i].as /\ v \in prog[c][i].as[k]
NoLostUpdateElse ==
  AllDone => \A k \in Kws \ risk, v \in Vals : DeletedBy(k, v) \/
    ((\/ \E c \in Clients : \E i \in DOMAIN res[c] :
           /\ prog[c][i].op = "add" /\ res[c][i].st = "ok"
           /\ k \in DOMAIN prog[c][i].as /\ v \in prog[c][i].as[k]
      \/ \E t \in Toks : t[2] = k /\ v \in Read(Start.et[t], Start.ct))
     => \E cr \in Creds : v \in Content(cr, k))
\* ... deletions included, of the keywords that had not moved yet
NoLostDelete ==
  AllDone => \A k \in Kws \ risk, v \in Vals :
     (/\ \E c \in Clients : \E i \in DOMAIN res[c] :
           /\ prog[c][i].op = "del" /\ res[c][i].st = "ok" /\ k \notin res[c][i].new
           /\ k \in DOMAIN prog[c][i].as /\ v \in prog[c][i].as[k]
      /\ ~\E c \in Clients : \E i \in DOMAIN prog[c] : prog[c][i].op = "add" /\ k \in DOMAIN prog[c][i].as /\ v \in prog[c][i].as[k])
     => \A cr \in Creds : v \notin Content(cr, k)

\* P07/P08/P10: a successful full compaction moves everything and leaves no rest
\* (sequential programs)
CompactOK ==
  \A c \in Clients : (pc[c] = "idle" /\ ip[c] > 1 /\ prog[c][ip[c]-1].op = "compact"
                      /\ res[c][Len(res[c])].st = "ok") =>
    LET op == prog[c][ip[c]-1]
        keep(k) == IF op.full THEN {trig[c][k] \ op.drop} ELSE {trig[c][k] \ op.drop, trig[c][k]}
    IN \A k \in Kws :
         /\ Content(op.new, k) \in keep(k)
         /\ et[<<op.old, k>>] = None
         /\ op.full => (et[<<op.new, k>>] # None <=> (trig[c][k] \ op.drop) # {})
\* P02: a search that is never stopped answers the reachable data
GraphOK ==
  \A c \in Clients : \A j \in DOMAIN res[c] :
    LET op == prog[c][j] IN
    (op.op = "search" /\ res[c][j].st = "ok") =>
      \A k \in op.kws : IF op.stop = 0 THEN res[c][j].out[k] = Closure(ContentMap(op.cred), k)
                        ELSE res[c][j].out[k] \subseteq Closure(ContentMap(op.cred), k)
SearchesNeverFail ==
  \A c \in Clients : \A j \in DOMAIN res[c] : prog[c][j].op = "search" => res[c][j].st = "ok"

\* P11: what belongs to other credentials never changes
IsolationOK ==
  \A cr \in Creds, k \in Kws :
    (\A c \in Clients : \A j \in DOMAIN prog[c] : prog[c][j].op = "compact" => cr \notin {prog[c][j].old, prog[c][j].new})
    => Content(cr, k) = Read(Start.et[<<cr, k>>], Start.ct)
\* P11: with entries of another key in the batch, a compaction fails and changes nothing
AlienOK ==
  \A c \in Clients : \A j \in DOMAIN res[c] :
     res[c][j].st = "err" => et = Start.et /\ ct = Start.ct

\* P09: a failed compaction that did not publish leaves everything as it was
\* (one fault at most, one client, one batch)
FailureUndone ==
  \A c \in Clients : \A j \in DOMAIN res[c] :
    (prog[c][j].op = "compact" /\ res[c][j].st = "err" /\ ~res[c][j].pub) => et = Start.et /\ DOMAIN ct = DOMAIN Start.ct

\* P09: whatever compactions fail, die or run at the same time, each initial
\* association is still readable in full under some of the credentials
NoLoss ==
  \A k \in Kws : \E cr \in Creds : Read(Start.et[<<1, k>>], Start.ct) \subseteq Content(cr, k)

NoOrphans ==
  (AllDone /\ MaxFaults = 0) =>
     \A x \in DOMAIN ct : \E t \in Toks : et[t] # None /\ et[t].seed = x[1] /\ x[2] <= et[t].last

\* everybody finishes (under FairSpec)
Termination == <>AllDone
===============================================================================
