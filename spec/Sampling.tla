--------------------------------- MODULE Sampling --------------------------------
(* Which chains the compactions draw (P19). Each compaction draws a number of      *)
(* entries that depends on how many there are, with repetition; when as many are   *)
(* asked for as there are entries, it takes all of them. Randomness is fairness:   *)
(* an entry that has a chance of being drawn for ever is eventually drawn.         *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N,         \* entries
          Range,     \* "all": any entry may be drawn; "head": not the last one
          MinDraws   \* least number of draws of a compaction
VARIABLES done       \* compacted entries
E == 1..N
Drawable == IF Range = "all" THEN E ELSE E \ {N}
Init == done = {}
\* one compaction that draws the entries of S
Compact(S) == done' = done \cup S
May(S, n) == IF N <= n THEN S = E ELSE S # {} /\ S \subseteq Drawable /\ Cardinality(S) <= n
\* x is among the entries drawn
Draw(x) == \E S \in SUBSET E, n \in MinDraws..N : (n > 0 /\ May(S, n) /\ x \in S) /\ Compact(S)
Next == \E n \in MinDraws..N : IF n = 0 THEN UNCHANGED done ELSE \E S \in SUBSET E : May(S, n) /\ Compact(S)
\* at the least rate only MinDraws entries are drawn each time
Least(x) == IF MinDraws = 0 THEN FALSE ELSE \E S \in SUBSET E : May(S, MinDraws) /\ x \in S /\ Compact(S)
LNext == IF MinDraws = 0 THEN UNCHANGED done ELSE \E S \in SUBSET E : May(S, MinDraws) /\ Compact(S)
Spec == Init /\ [][Next]_done /\ \A x \in E : SF_done(Draw(x) /\ x \notin done)
LSpec == Init /\ [][LNext]_done /\ \A x \in E : SF_done(Least(x) /\ x \notin done)
TypeOK == done \subseteq E
Eventually == <>(done = E)
\* compacted chains stay so when nobody writes
Monotone == [][done \subseteq done']_done
==================================================================================
