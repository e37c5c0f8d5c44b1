---------------------------------- MODULE View ----------------------------------
(* Noninterference: two executions of the same shape, side by side, over two     *)
(* storages. Half B works on other keywords (REN), and with the additions of     *)
(* some operations turned into deletions and conversely (flips); what the two    *)
(* storages learn (ViewCore, the operators of the monitor TraceView) must be     *)
(* the same. LEAK is a design that tells more.                                   *)
EXTENDS ViewCore
CONSTANTS K, REN, ITEMS, N, OPS, FLIP, TYPES, LEAK
VARIABLES pos, w, seen, view
vars == <<pos, w, seen, view>>
H == {"A", "B"}

\* an item is <<"d", value, lines>> or <<"p", keyword>>
Lines(x) == IF x[1] = "d" THEN x[3] ELSE 1
\* in half B the pointers are those of the renamed keywords or, with TYPES, the pointer
\* to "a" and the datum "1" are exchanged
ItemOf(h, x) == IF h = "A" THEN x
                ELSE IF TYPES THEN IF x[1] = "p" THEN <<"d", "1", 1>> ELSE IF x = <<"d", "1", 1>> THEN <<"p", "a">> ELSE x
                ELSE IF x[1] = "p" THEN <<"p", REN[x[2]]>> ELSE x
KwOf(h, k) == IF h = "B" THEN REN[k] ELSE k

\* a storage: entries cred, keyword -> chain number, length and modifications of the chain
NoEntry == [c |-> 0, n |-> 0, mods |-> <<>>]
Empty == [live |-> 1, next |-> 1, e |-> [k \in K |-> NoEntry]]
ET(s, k) == <<"E", s.live, k>>
CT(x, j) == <<"C", x.c, j>>
Chain(x) == {CT(x, j) : j \in 1..x.n}
Known(s) == {k \in K : s.e[k].n > 0}

\* (no order among the values: what is left of a chain is a set)
RECURSIVE Left(_)
Left(m) == IF m = <<>> THEN {} ELSE LET x == m[Len(m)] y == Left(SubSeq(m, 1, Len(m) - 1)) IN
           IF x[1] = "add" THEN y \cup {x[2]} ELSE y \ {x[2]}
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

Acc(tab, call, tok, old, new, ret) == [tab |-> tab, call |-> call, tok |-> tok, old |-> old, new |-> new, ret |-> ret]

(* ------------------------------- operations -------------------------------- *)
\* each gives the accesses and the next storage
Write(s, op, as) ==
  LET drop(k) == \/ LEAK = "delskip" /\ op = "del" /\ s.e[k].n = 0
                 \/ LEAK = "dedup" /\ op = "add" /\ as[k] \in Left(s.e[k].mods)
      D == {k \in DOMAIN as : ~drop(k)}
      old == {ET(s, k) : k \in D \cap Known(s)}
      lines(k) == IF LEAK = "pad" /\ as[k][1] = "p" THEN 2 ELSE IF LEAK = "delshort" /\ op = "del" THEN 1 ELSE Lines(as[k])
      \* chains of new keywords are fresh
      fresh == D \ Known(s)
      num == CHOOSE f \in [fresh -> 0..Cardinality(fresh)] : \A x, y \in fresh : x # y => f[x] # f[y]
      ch(k) == IF k \in fresh THEN s.next + num[k] ELSE s.e[k].c
      e2 == [k \in K |-> IF k \in D THEN [c |-> ch(k), n |-> s.e[k].n + lines(k), mods |-> Append(s.e[k].mods, <<op, as[k]>>)] ELSE s.e[k]]
      new == {CT(e2[k], j) : <<k, j>> \in {<<k, j>> \in D \X (1..20) : j > s.e[k].n /\ j <= e2[k].n}}
      pre == IF LEAK = "ptrcheck" /\ \E k \in D : as[k][1] = "p"
             THEN LET T == {ET(s, as[k][2]) : k \in {k \in D : as[k][1] = "p"}} IN
                  <<Acc("et", "fetch", T, {}, {}, T \cap {ET(s, k) : k \in Known(s)})>> ELSE <<>>
  IN [acc |-> pre \o (IF D = {} THEN <<>> ELSE
               <<Acc("et", "fetch", {ET(s, k) : k \in D}, {}, {}, old),
                 Acc("et", "upsert", {}, old, {ET(s, k) : k \in D}, {}),
                 Acc("ct", "insert", {}, {}, new, {})>>),
      s |-> [s EXCEPT !.e = e2, !.next = s.next + Cardinality(fresh) + 1]]

RECURSIVE Levels(_, _, _)
Levels(s, Q, done) ==
  LET got == {ET(s, k) : k \in Q \cap Known(s)}
      C == UNION {Chain(s.e[k]) : k \in Q}
      nxt == {k \in K : \E q \in Q : <<"p", k>> \in Left(s.e[q].mods)} \ (done \cup Q)
      here == IF LEAK = "early" /\ \A k \in Q : Left(s.e[k].mods) = {} THEN <<Acc("et", "fetch", {ET(s, k) : k \in Q}, {}, {}, got)>>
              ELSE <<Acc("et", "fetch", {ET(s, k) : k \in Q}, {}, {}, got), Acc("ct", "fetch", C, {}, {}, C)>>
  IN here \o (IF nxt = {} THEN <<>> ELSE Levels(s, nxt, done \cup Q))
Search(s, Q) == [acc |-> Levels(s, Q, {}), s |-> s]

Compact(s) ==
  LET old == {ET(s, k) : k \in Known(s)}
      C == UNION {Chain(s.e[k]) : k \in K}
      keep == {k \in K : Left(s.e[k].mods) # {}}
      num == CHOOSE f \in [keep -> 0..Cardinality(keep)] : \A x, y \in keep : x # y => f[x] # f[y]
      sum(S) == Sum([x \in S |-> Lines(x)], S)
      s2 == [live |-> s.live + 1, next |-> s.next + Cardinality(keep) + 1,
             e |-> [k \in K |-> IF k \in keep THEN [c |-> s.next + num[k], n |-> sum(Left(s.e[k].mods)),
                                                    mods |-> LET L == Left(s.e[k].mods) n == Cardinality(L)
                                                                 q == CHOOSE q \in [1..n -> L] : \A a, b \in 1..n : a # b => q[a] # q[b]
                                                             IN [j \in 1..n |-> <<"add", q[j]>>]]
                                ELSE NoEntry]]
      C2 == UNION {Chain(s2.e[k]) : k \in K}
  IN [acc |-> <<Acc("et", "dump", {}, {}, {}, old), Acc("et", "fetch", old, {}, {}, old), Acc("ct", "fetch", C, {}, {}, C),
                Acc("ct", "insert", {}, {}, C2, {}), Acc("et", "insert", {}, {}, {ET(s2, k) : k \in keep}, {}),
                Acc("ct", "delete", C, {}, {}, {}), Acc("et", "delete", old, {}, {}, {})>>,
      s |-> s2]

Run(h, o, flip) ==
  IF o.op = "search" THEN Search(w[h], {KwOf(h, k) : k \in o.q})
  ELSE IF o.op = "compact" THEN Compact(w[h])
  ELSE Write(w[h], IF h = "B" /\ flip THEN (IF o.op = "add" THEN "del" ELSE "add") ELSE o.op,
             [k \in {KwOf(h, k) : k \in DOMAIN o.as} |-> ItemOf(h, o.as[CHOOSE k2 \in DOMAIN o.as : KwOf(h, k2) = k])])

(* ---------------------------- what is learnt ------------------------------- *)
RECURSIVE Learnt(_, _, _, _)
Learnt(acc, n, sn, bag) ==
  IF acc = <<>> THEN [seen |-> sn, bag |-> bag]
  ELSE LET a == acc[1]
           wh == <<n, a.tab, a.call>>
           v == <<a.tab, a.call, Cardinality(a.tok) + Cardinality(a.old), Cardinality(a.new), Cardinality(a.ret)>>
           all == a.tok \cup a.old \cup a.new \cup a.ret
       IN Learnt(Tail(acc), n, sn @@ [t \in all |-> wh], Learn(bag, v, wh, sn, a.tok, a.old, a.new, a.ret))

Programs ==
  (IF "add" \in OPS THEN {[op |-> "add", as |-> f] : f \in UNION {[D -> ITEMS] : D \in SUBSET K \ {{}}}} ELSE {})
  \cup (IF "del" \in OPS THEN {[op |-> "del", as |-> f] : f \in UNION {[D -> ITEMS] : D \in SUBSET K \ {{}}}} ELSE {})
  \cup (IF "search" \in OPS THEN {[op |-> "search", q |-> Q] : Q \in SUBSET K \ {{}}} ELSE {})
  \cup (IF "compact" \in OPS THEN {[op |-> "compact"]} ELSE {})

Init == pos = 1 /\ w = [h \in H |-> Empty] /\ seen = [h \in H |-> <<>>] /\ view = [h \in H |-> <<>>]
Next ==
  /\ pos <= N
  /\ pos' = pos + 1
  /\ \E o \in Programs : \E f \in (IF FLIP THEN BOOLEAN ELSE {FALSE}) :
       LET r == [h \in H |-> Run(h, o, f)]
           l == [h \in H |-> Learnt(r[h].acc, pos, seen[h], <<>>)]
       IN /\ w' = [h \in H |-> r[h].s]
          /\ seen' = [h \in H |-> l[h].seen]
          /\ view' = [h \in H |-> [kinds |-> [j \in DOMAIN r[h].acc |-> <<r[h].acc[j].tab, r[h].acc[j].call>>], bag |-> l[h].bag]]
Spec == Init /\ [][Next]_vars
SameView == view["A"] = view["B"]
=================================================================================
