--------------------------------- MODULE CodecMC ---------------------------------
(* Every short sequence of modifications survives the layout: reading the lines *)
(* back gives what the modifications leave; the number of lines is the least     *)
(* that their blocks need.                                                       *)
EXTENDS Codec
CONSTANTS BL, W, MaxLen, MaxOps
VARIABLES s
Bytes == {0, 1}
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE LET p == Strings(n - 1) IN p \cup {Append(x, c) : x \in {y \in p : Len(y) = n - 1}, c \in Bytes}
\* indexed values have at least one byte
Vals == Strings(MaxLen) \ {<<>>}
Init == s = <<>>
Next == Len(s) < MaxOps /\ \E op \in {"add", "del"}, v \in Vals : s' = Append(s, [op |-> op, v |-> v])
Spec == Init /\ [][Next]_s
RECURSIVE Fold(_, _)
Fold(q, S) == IF q = <<>> THEN S ELSE Fold(Tail(q), ApplyOp(Head(q).op, S, {Head(q).v}))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE (Len(Head(q).v) \div BL) + 1 + Sum(Tail(q))
RoundTrip == LET l == Decompose(s, BL, W)  r == Recompose(l) IN r.ok /\ r.vals = Fold(s, {})
Lines == Len(Decompose(s, BL, W)) = CeilDiv(Sum(s), W)
\* lines appended by several operations are read as one sequence
Appendable == \A k \in 0..Len(s) :
  Recompose(Decompose(SubSeq(s, 1, k), BL, W) \o Decompose(SubSeq(s, k + 1, Len(s)), BL, W)).vals = Fold(s, {})
==================================================================================
