-------------------------------- MODULE TraceConc --------------------------------
(* Validates concurrent histories of the real code: clients whose storage       *)
(* accesses are interleaved, fail, or that die. For every pair of a keyword and *)
(* a value the results of all the operations must be those of a sequential      *)
(* order compatible with real time (a register written by additions and         *)
(* deletions and read by searches), and so must be the keywords reported as new *)
(* (a test-and-set register per keyword).                                       *)
(*                                                                              *)
(* A search is a read of every register of its credentials until it returns.    *)
EXTENDS TraceBase

VARIABLES ep, i,
  pend,    \* client -> operation in progress
  lin,     \* <<cred, kw, type, value>> -> configurations
  tas,     \* <<cred, kw>> -> configurations
  ever,    \* associations whose addition began
  failed,  \* associations of the failed operations: [cred, op, as]
  touch,   \* association -> number of operations that modify it
  bad
vars == <<ep, i, pend, lin, tas, ever, failed, touch, bad>>

Init ==
  /\ ep \in Ids /\ i = 1
  /\ pend = <<>> /\ lin = <<>> /\ tas = <<>> /\ ever = {} /\ failed = {} /\ touch = <<>>
  /\ bad = {}

E0 == Ev(ep)[i]
Flag(cond, tag) == IF cond THEN {} ELSE {<<tag, i>>}
Num(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Regs(e) == {<<e.cred, x[1], x[2], x[3]>> : x \in SeqSet(e.as)}
Toks(e) == {<<e.cred, k>> : k \in KwsOf(e.as)}
IsWrite(e) == e.op \in {"add", "del"}

\* the pending operations, as seen by a register
PendV(p, r) == {x \in {<<p[c].id,
                          LET e == p[c].e IN
                          IF IsWrite(e) THEN IF r \in Regs(e) THEN IF e.op = "add" THEN "set1" ELSE "set0" ELSE "no"
                          ELSE IF e.op = "search" /\ e.cred = r[1] THEN "read" ELSE "no">> : c \in DOMAIN p} : x[2] # "no"}
PendT(p, t) == {x \in {<<p[c].id, IF IsWrite(p[c].e) /\ t \in Toks(p[c].e) THEN "tas" ELSE "no">> : c \in DOMAIN p} : x[2] # "no"}

Inv ==
  /\ E0.t = "inv"
  /\ pend' = (E0.c :> [id |-> i, e |-> E0, fed |-> <<>>, first |-> <<>>, todo |-> SeqSet(E0.kws), it |-> 0, cberr |-> FALSE]) @@ pend
  /\ IF IsWrite(E0)
     THEN /\ lin' = lin @@ [r \in Regs(E0) |-> LinInit(FALSE)]
          /\ tas' = tas @@ [t \in Toks(E0) |-> LinInit(FALSE)]
          /\ ever' = IF E0.op = "add" THEN ever \cup Regs(E0) ELSE ever
          /\ touch' = [r \in Regs(E0) |-> Num(touch, r) + 1] @@ touch
     ELSE UNCHANGED <<lin, tas, ever, touch>>
  /\ bad' = bad \cup Flag(E0.c \notin DOMAIN pend \/ ~Has(pend[E0.c].e, "c"), "machinery")
  /\ UNCHANGED failed

Iter ==
  /\ E0.t = "int"
  /\ \E f \in {PairsToFun(E0.fed)} :
     LET p == pend[E0.c]
         ok == \A k \in DOMAIN f : \A v \in f[k] : <<p.e.cred, k, v[1], v[2]>> \in ever
     IN /\ bad' = bad \cup Flag(ok, "invent") \cup Flag(DOMAIN f \subseteq p.todo, "search.level")
        /\ pend' = [pend EXCEPT ![E0.c].fed = f @@ @, ![E0.c].first = @ @@ f, ![E0.c].it = @ + 1,
                      ![E0.c].todo = UNION {Pointers(f[k]) : k \in DOMAIN f},
                      ![E0.c].cberr = @ \/ E0.ans = "err"]
  /\ UNCHANGED <<lin, tas, ever, failed, touch>>

Fix(cfgs) == IF cfgs = {} THEN LinInit(FALSE) \cup LinInit(TRUE) ELSE cfgs
Drop(p, c) == [x \in DOMAIN p \ {c} |-> p[x]]

ResWrite ==
  LET p == pend[E0.c]  e == p.e
      R == Regs(e)  T == Toks(e)
      new == {<<e.cred, k>> : k \in SeqSet(E0.new)}
      ok == E0.st = "ok"
      nl == ([r \in R |-> IF ok THEN LinReturnAny(lin[r], PendV(pend, r), p.id)
                         ELSE LinAbort(lin[r], PendV(pend, r), p.id)])
      nt == [t \in T |-> IF ok THEN LinReturn(tas[t], PendT(pend, t), p.id, t \notin new)
                         ELSE LinAbort(tas[t], PendT(pend, t), p.id)]
  IN /\ lin' = [r \in R |-> Fix(nl[r])] @@ lin
     /\ tas' = [t \in T |-> IF nt[t] = {} THEN LinInit(TRUE) ELSE nt[t]] @@ tas
     /\ failed' = IF ok THEN failed ELSE failed \cup {[op |-> e.op, R |-> R]}
     /\ bad' = bad \cup Flag(\A t \in T : nt[t] # {}, "new")
                   \cup Flag(~ok \/ new \subseteq T, "new")
                   \cup Flag(\A r \in R : nl[r] # {}, "machinery")
                   \cup Flag(E0.st = "err" => E0.hit > 0, "conc.wfail")
                   \cup Flag(ok => E0.hit = 0, "swallow")
     /\ UNCHANGED <<ever, touch>>

\* a probe after the end tells what became of the failed operations: all or
\* nothing, as far as nobody else modified these associations
Settle(p) ==
  \A f \in failed :
    LET mine == {r \in f.R : r[1] = p.e.cred /\ r[2] \in SeqSet(p.e.kws) /\ touch[r] = 1}
    IN \A a, b \in mine : (<<a[3], a[4]>> \in At(p.fed, a[2])) = (<<b[3], b[4]>> \in At(p.fed, b[2]))

ResSearch ==
  \E out \in {PairsToFun(E0.out)} :
  LET p == pend[E0.c]  e == p.e
      ok == E0.st = "ok"
      R == {r \in DOMAIN lin : r[1] = e.cred}
      \* what is known of the registers: keywords requested or given
      seen(r) == r[2] \in DOMAIN p.fed \/ r[2] \in SeqSet(e.kws)
      nl == [r \in R |-> IF ~ok \/ ~seen(r) THEN LinAbort(lin[r], PendV(pend, r), p.id)
                         ELSE LinReturn(lin[r], PendV(pend, r), p.id, <<r[3], r[4]>> \in At(p.fed, r[2]))]
  IN /\ lin' = [r \in R |-> Fix(nl[r])] @@ lin
     /\ bad' = bad \cup Flag(\A r \in R : nl[r] # {}, "lin")
                   \cup Flag(ok => DOMAIN out \subseteq SeqSet(e.kws) /\
                             \A k \in SeqSet(e.kws) : At(out, k) \in {Closure(p.fed, k), Closure(p.first, k)}, "lin.out")
                   \cup Flag(E0.st = "err" => E0.hit > 0 \/ p.cberr, "conc.fail")
                   \cup Flag(ok => E0.hit = 0 /\ ~p.cberr, "swallow")
                   \cup Flag(ok /\ e.arg = "final" => Settle(p), "aon")
     /\ UNCHANGED <<tas, ever, failed, touch>>

Res ==
  /\ E0.t = "res"
  /\ IF IsWrite(pend[E0.c].e) THEN ResWrite
     ELSE IF pend[E0.c].e.op = "search" THEN ResSearch
     ELSE bad' = bad \cup {<<"machinery", i>>} /\ UNCHANGED <<lin, tas, ever, failed, touch>>
  /\ pend' = Drop(pend, E0.c)

Other ==
  /\ E0.t \notin {"inv", "int", "res"}
  /\ bad' = bad \cup Flag(E0.t \notin {"die", "hang"}, "panic")
  /\ UNCHANGED <<pend, lin, tas, ever, failed, touch>>

Next ==
  /\ i <= Len(Ev(ep))
  /\ i' = i + 1 /\ ep' = ep
  /\ (Inv \/ Iter \/ Res \/ Other)
  /\ i' > Len(Ev(ep)) => Report(ep, bad')
Spec == Init /\ [][Next]_vars
=================================================================================
