-------------------------------- MODULE ViewCore --------------------------------
(* What the storage learns from the accesses of one operation: how many of each  *)
(* kind, of which sizes, and which of their tokens it has already met, where.    *)
(* Keywords have no order: accesses of the same kind are compared as a bag.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* how many of the tokens were first seen where (here, if they were not)
Hist(T, seen, n) ==
  LET first(t) == IF t \in DOMAIN seen THEN seen[t] ELSE n
      h(x) == Cardinality({t \in T : first(t) = x})
  IN [x \in {first(t) : t \in T} |-> h(x)]
Plus(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x \in DOMAIN g THEN g[x] ELSE 0)]
\* the same, for what is told of tokens under the heading k
Under(k, h) == [x \in {<<k, y>> : y \in DOMAIN h} |-> h[x[2]]]

\* one more access in a bag. v: its shape; where: its operation, table and call; the sets of tokens it bears
Learn(bag, v, where, seen, tok, old, new, ret) ==
  LET of(f, T) == Under(<<where[2], where[3], f>>, Hist(T, seen, where))
  IN Plus(Plus(Plus(Plus(Plus(bag, v :> 1), of("tok", tok)), of("old", old)), of("new", new)), of("ret", ret))
=================================================================================
