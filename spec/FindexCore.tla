------------------------------ MODULE FindexCore ------------------------------
(* Pure definitions shared by the design specification (Findex.tla), by the   *)
(* specifications of the parts (Graph, Codec, Edx) and by the specifications  *)
(* that validate the traces recorded from the real code (Trace*.tla).         *)
(*                                                                            *)
(* A value is a pair <<"d", datum>> or <<"p", keyword>> (pointer).            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

SeqSet(s) == {s[i] : i \in DOMAIN s}

(* ------------------------- multi-map semantics --------------------------- *)
\* effect of one operation carrying the values V on the values S of a keyword
ApplyOp(op, S, V) == IF op = "add" THEN S \cup V ELSE S \ V

\* the keywords and the values of the associations as == <<k, tag, v>> ...
KwsOf(as) == {as[i][1] : i \in DOMAIN as}
ValsOf(as, k) == {<<as[i][2], as[i][3]>> : i \in {j \in DOMAIN as : as[j][1] = k}}

\* values left by a chain of links, oldest first: the last operation wins
RECURSIVE FoldChain(_, _)
FoldChain(chain, S) ==
  IF chain = <<>> THEN S
  ELSE FoldChain(Tail(chain), ApplyOp(Head(chain).op, S, Head(chain).vals))

(* --------------------------- graph semantics ----------------------------- *)
Pointers(S) == {x[2] : x \in {y \in S : y[1] = "p"}}
DataOf(S)   == {x[2] : x \in {y \in S : y[1] = "d"}}

\* content of a keyword in a partial function
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE {}

RECURSIVE Reach(_, _, _)
Reach(f, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET all == seen \cup todo
           nxt == UNION {Pointers(At(f, k)) : k \in todo}
       IN  Reach(f, nxt \ all, all)

\* what a search for keyword k must answer over the content f
Closure(f, k) == IF Pointers(At(f, k)) = {} THEN DataOf(At(f, k)) ELSE UNION {DataOf(At(f, x)) : x \in Reach(f, {k}, {})}

(* --------------------------- storage geometry ---------------------------- *)
BlockLen  == 16
LineWidth == 5
CeilDiv(a, b) == (a + b - 1) \div b
\* blocks needed by an indexed value of n bytes: one byte of type is added and
\* the last block is always a terminating one
BlocksOf(n) == ((1 + n) \div BlockLen) + 1

(* --------------------- linearizability of one register ------------------- *)
(* The monitor of a boolean register keeps the set of all the configurations  *)
(* compatible with what was observed: its value b, and the results of the     *)
(* pending operations that already took effect.                               *)
(*   "set1", "set0": writes; "read": returns b; "tas": returns b, sets it     *)
LinInit(b) == {[b |-> b, done |-> {}]}

LinApply(kind, b) == CASE kind = "set1" -> TRUE
                       [] kind = "set0" -> FALSE
                       [] kind = "read" -> b
                       [] kind = "tas"  -> TRUE
LinRet(kind, b) == IF kind \in {"read", "tas"} THEN b ELSE FALSE

\* pend: set of <<id, kind>> of the operations in progress
LinStep(cfgs, pend) ==
  cfgs \cup UNION {
    {[b |-> LinApply(p[2], c.b), done |-> c.done \cup {<<p[1], LinRet(p[2], c.b)>>}] :
        p \in {q \in pend : \A r \in BOOLEAN : <<q[1], r>> \notin c.done}}
      : c \in cfgs}
RECURSIVE LinClose(_, _)
LinClose(cfgs, pend) ==
  LET n == LinStep(cfgs, pend) IN IF n = cfgs THEN cfgs ELSE LinClose(n, pend)

Strip(c, id) == [c EXCEPT !.done = {x \in @ : x[1] # id}]

\* operation id returned successfully with result r: it took effect before now
LinReturn(cfgs, pend, id, r) ==
  {Strip(c, id) : c \in {d \in LinClose(cfgs, pend) : <<id, r>> \in d.done}}

\* as LinReturn, whatever the result is
LinReturnAny(cfgs, pend, id) ==
  {Strip(c, id) : c \in {d \in LinClose(cfgs, pend) : \E r \in BOOLEAN : <<id, r>> \in d.done}}

\* operation id failed or died: it took effect before now, or never will
LinAbort(cfgs, pend, id) == {Strip(c, id) : c \in LinClose(cfgs, pend)}
===============================================================================
