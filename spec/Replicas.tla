-------------------------------- MODULE Replicas --------------------------------
(* Replicas of an index, written apart and then merged in a storage that keeps  *)
(* all the values of a token (P17), identical ones included or not.             *)
(*                                                                              *)
(* The replicas start from a common index (forked replicas) or from nothing     *)
(* (independent ones). An entry is [seed, last, id]: `id` identifies the        *)
(* ciphertext, so that an entry no replica wrote since the fork stays single.   *)
(* Clients then work on the merged storage, one storage access per action.      *)
EXTENDS FindexCore, Functions, FiniteSetsExt, SequencesExt

CONSTANTS
  Clients, Progs,     \* programs of the clients after the merge
  Commons, Halves,    \* histories before the fork; sequences of histories, one per replica
  Kws, Vals,
  Design              \* "union": a search reads all the entries of a token
                      \* "refuse": a write refuses several entries
                      \* "bag": the storage keeps the identical values too (not a design: what is merged)

VARIABLES common, halves, prog, et, ct, fresh, pc, loc, ip, res, val
vars == <<common, halves, prog, et, ct, fresh, pc, loc, ip, res, val>>

None == [seed |-> 0, last |-> 0, id |-> 0, copy |-> 0]
ReadSingle(e, links) ==   \* links: one link per place
  LET RECURSIVE up(_)
      up(i) == IF i > e.last THEN <<>>
               ELSE (IF <<e.seed, i>> \in DOMAIN links THEN <<links[<<e.seed, i>>]>> ELSE <<>>) \o up(i + 1)
  IN FoldChain(up(1), {})

(* ------------------------------- the replicas ----------------------------- *)
Order(S) == CHOOSE f \in [S -> 1..Cardinality(S)] : \A a, b \in S : a # b => f[a] # f[b]
Applied(s, op) ==
  LET ks == DOMAIN op.as
      ix == Order(ks)
      new == [k \in ks |-> IF s.et[k] = None THEN [seed |-> s.fresh + ix[k], last |-> 1, id |-> s.fresh + ix[k], copy |-> 0]
                           ELSE [s.et[k] EXCEPT !.last = @ + 1, !.id = s.fresh + ix[k]]]
  IN [et |-> [k \in Kws |-> IF k \in ks THEN new[k] ELSE s.et[k]],
      ct |-> [x \in {<<new[k].seed, new[k].last>> : k \in ks} |->
                LET k == CHOOSE y \in ks : <<new[y].seed, new[y].last>> = x
                IN [op |-> op.op, vals |-> op.as[k]]] @@ s.ct,
      fresh |-> s.fresh + Cardinality(ks)]
RECURSIVE AppliedAll(_, _)
AppliedAll(s, ops) == IF ops = <<>> THEN s ELSE AppliedAll(Applied(s, Head(ops)), Tail(ops))
Base(c) == AppliedAll([et |-> [k \in Kws |-> None], ct |-> <<>>, fresh |-> 0], c)
Replica(c, h, j) == AppliedAll([Base(c) EXCEPT !.fresh = 100 * j], h[j])
Reps(c, h) == [j \in DOMAIN h |-> Replica(c, h, j)]
\* the entries of a keyword once merged
EtOf(R, k) == {[R[j].et[k] EXCEPT !.copy = IF "bag" \in Design THEN j ELSE 0] : j \in {i \in DOMAIN R : R[i].et[k] # None}}

\* links of the same place written apart by two forked replicas
Collide(c, h) == \E i, j \in DOMAIN h : i # j /\ LET a == Replica(c, h, i)  b == Replica(c, h, j) IN
                   (DOMAIN a.ct \cap DOMAIN b.ct) \ DOMAIN Base(c).ct # {}

Init ==
  /\ common \in Commons /\ halves \in Halves /\ prog \in Progs
  /\ LET R == Reps(common, halves) IN
     /\ et = [k \in Kws |-> EtOf(R, k)]
     /\ ct = [x \in UNION {DOMAIN R[j].ct : j \in DOMAIN R} |-> {R[j].ct[x] : j \in {i \in DOMAIN R : x \in DOMAIN R[i].ct}}]
     \* ghost: the union of the contents
     /\ val = [k \in Kws |-> UNION {ReadSingle(R[j].et[k], R[j].ct) : j \in DOMAIN R}]
  /\ fresh = 1000
  /\ pc = [c \in Clients |-> "idle"] /\ loc = [c \in Clients |-> <<>>]
  /\ ip = [c \in Clients |-> 1] /\ res = [c \in Clients |-> <<>>]

(* -------------------------------- the clients ------------------------------ *)
Op(c) == prog[c][ip[c]]
HasOp(c) == ip[c] <= Len(prog[c])
Double == {k \in Kws : Cardinality(et[k]) > 1}
Entry(k) == IF et[k] = {} THEN None ELSE CHOOSE e \in et[k] : TRUE

Return(c, r) ==
  /\ pc' = [pc EXCEPT ![c] = "idle"] /\ loc' = [loc EXCEPT ![c] = <<>>]
  /\ ip' = [ip EXCEPT ![c] = @ + 1] /\ res' = [res EXCEPT ![c] = Append(@, r)]
Goto(c, p, l) ==
  /\ pc' = [pc EXCEPT ![c] = p] /\ loc' = [loc EXCEPT ![c] = l] /\ UNCHANGED <<ip, res>>

WFetch(c) ==
  /\ pc[c] = "idle" /\ HasOp(c) /\ Op(c).op \in {"add", "del"}
  /\ IF "refuse" \in Design /\ DOMAIN Op(c).as \cap Double # {} THEN Return(c, [st |-> "err"])
     ELSE Goto(c, "wupsert", [old |-> [k \in DOMAIN Op(c).as |-> Entry(k)], todo |-> DOMAIN Op(c).as, links |-> <<>>])
  /\ UNCHANGED <<et, ct, fresh, val>>
WUpsert(c) ==
  /\ pc[c] = "wupsert"
  /\ LET l == loc[c]
         acc == {k \in l.todo : l.old[k] \in et[k] \/ (l.old[k] = None /\ et[k] = {})}
         ix == Order(l.todo)
         ne == [k \in l.todo |-> IF l.old[k] = None THEN [seed |-> fresh + ix[k], last |-> 1, id |-> fresh + ix[k], copy |-> 0]
                                 ELSE [l.old[k] EXCEPT !.last = @ + 1, !.id = fresh + ix[k]]]
         rest == l.todo \ acc
     IN /\ et' = [k \in Kws |-> IF k \in acc THEN (et[k] \ {l.old[k]}) \cup {ne[k]} ELSE et[k]]
        /\ fresh' = fresh + Cardinality(l.todo)
        /\ Goto(c, IF rest = {} THEN "winsert" ELSE "wupsert",
                [old |-> [k \in DOMAIN l.old |-> IF k \in rest THEN Entry(k) ELSE l.old[k]], todo |-> rest,
                 links |-> [x \in {<<ne[k].seed, ne[k].last>> : k \in acc} |->
                              LET k == CHOOSE y \in acc : <<ne[y].seed, ne[y].last>> = x
                              IN {[op |-> Op(c).op, vals |-> Op(c).as[k]]}] @@ l.links])
  /\ UNCHANGED <<ct, val>>
WInsert(c) ==
  /\ pc[c] = "winsert"
  /\ ct' = loc[c].links @@ ct
  /\ val' = [k \in Kws |-> IF k \in DOMAIN Op(c).as THEN ApplyOp(Op(c).op, val[k], Op(c).as[k]) ELSE val[k]]
  /\ Return(c, [st |-> "ok"])
  /\ UNCHANGED <<et, fresh>>

SFetch(c) ==
  /\ ((pc[c] = "idle" /\ HasOp(c) /\ Op(c).op = "search") \/ pc[c] = "sfetch")
  /\ LET l == IF pc[c] = "idle" THEN [tags |-> Op(c).kws, graph |-> <<>>, ent |-> <<>>] ELSE loc[c] IN
     IF "union" \in Design
     THEN Goto(c, "slinks", [l EXCEPT !.ent = [k \in {k \in l.tags : et[k] # {}} |-> et[k]]])
     ELSE \E f \in {g \in [{k \in l.tags : et[k] # {}} -> UNION {et[k] : k \in Kws}] : \A k \in DOMAIN g : g[k] \in et[k]} :
            Goto(c, "slinks", [l EXCEPT !.ent = [k \in DOMAIN f |-> {f[k]}]])
  /\ UNCHANGED <<et, ct, fresh, val>>
SLinks(c) ==
  /\ pc[c] = "slinks"
  \* when the chain table too answers several values for a place, one is kept
  /\ \E pick \in {g \in [DOMAIN ct -> UNION {ct[x] : x \in DOMAIN ct}] : \A x \in DOMAIN ct : g[x] \in ct[x]} :
       LET l == loc[c]
           fed == [k \in DOMAIN l.ent |-> UNION {ReadSingle(e, pick) : e \in l.ent[k]}]
           graph == fed @@ l.graph
           tags == UNION {Pointers(fed[k]) : k \in DOMAIN fed} \ DOMAIN l.graph
       IN IF tags = {} THEN Return(c, [st |-> "ok", out |-> [k \in Op(c).kws |-> Closure(graph, k)]])
          ELSE Goto(c, "sfetch", [tags |-> tags, graph |-> graph, ent |-> <<>>])
  /\ UNCHANGED <<et, ct, fresh, val>>

\* a compaction reads all the entries; Findex.tla details the rest, done at once here
Compact(c) ==
  /\ pc[c] = "idle" /\ HasOp(c) /\ Op(c).op = "compact"
  /\ IF Double # {} /\ "refuse" \in Design
     THEN Return(c, [st |-> "err"]) /\ UNCHANGED <<et, ct, fresh>>
     ELSE LET ks == {k \in Kws : et[k] # {}}
              ix == Order(ks)
              one == [x \in DOMAIN ct |-> CHOOSE y \in ct[x] : TRUE]
              con == [k \in ks |-> ReadSingle(Entry(k), one)]
              left == {k \in ks : con[k] # {}}
          IN /\ et' = [k \in Kws |-> IF k \in left THEN {[seed |-> fresh + ix[k], last |-> 1, id |-> fresh + ix[k], copy |-> 0]} ELSE {}]
             /\ ct' = [x \in {<<fresh + ix[k], 1>> : k \in left} |->
                         {[op |-> "add", vals |-> con[CHOOSE k \in left : fresh + ix[k] = x[1]]]}]
             /\ fresh' = fresh + Cardinality(ks)
             /\ Return(c, [st |-> "ok"])
  /\ UNCHANGED val

Step(c) == UNCHANGED <<common, halves, prog>>
           /\ (WFetch(c) \/ WUpsert(c) \/ WInsert(c) \/ SFetch(c) \/ SLinks(c) \/ Compact(c))
AllDone == \A c \in Clients : pc[c] = "idle" /\ ~HasOp(c)
Next == (\E c \in Clients : Step(c)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A c \in Clients : WF_vars(Step(c))

(* -------------------------------- properties ------------------------------- *)
Prog(c, j) == prog[c][j]
Touches(op) == CASE op.op = "search" -> {} [] op.op = "compact" -> Kws [] OTHER -> DOMAIN op.as
\* what is double was so when the replicas were merged
Double0 == LET R == Reps(common, halves) IN {k \in Kws : Cardinality(EtOf(R, k)) > 1}
\* an operation fails exactly when it would modify a keyword with several entries
RefusedIffDouble ==
  \A c \in Clients : \A j \in DOMAIN res[c] :
     res[c][j].st = "err" <=> Touches(Prog(c, j)) \cap Double0 # {}
\* ... and no access of such an operation modifies the storage
RefusedWritesNothing ==
  [][\A c \in Clients : (pc[c] # pc'[c] \/ ip[c] # ip'[c]) /\ HasOp(c) /\ Touches(Op(c)) \cap Double0 # {}
        => UNCHANGED <<et, ct>>]_vars
\* the entries of a double keyword stay, and lead to the same contents
Kept == LET R == Reps(common, halves) IN \A k \in Double0 : et[k] = EtOf(R, k)
\* a search answers the union (programs with one client)
UnionOK ==
  \A c \in Clients : pc[c] = "idle" /\ Len(res[c]) > 0 /\ Prog(c, Len(res[c])).op = "search" =>
     \A k \in Prog(c, Len(res[c])).kws : res[c][Len(res[c])].out[k] = Closure(val, k)
\* nothing that no replica indexed (any number of clients)
NoInvention ==
  \A c \in Clients : \A j \in DOMAIN res[c] : Prog(c, j).op = "search" =>
     \A k \in Prog(c, j).kws : res[c][j].out[k] \subseteq DataOf(Vals)
\* without common history no two chains ever meet
NoCollision == (common = <<>>) => \A x \in DOMAIN ct : Cardinality(ct[x]) = 1
Termination == <>AllDone
=================================================================================
