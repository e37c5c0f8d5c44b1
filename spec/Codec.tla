---------------------------------- MODULE Codec ----------------------------------
(* Layout of the lines of the Chain Table: a value is cut in blocks of BL bytes, *)
(* all of them full and non-terminating but the last one; a line has W blocks    *)
(* and one operation bit per block. Blocks and lines are sequences; a block is   *)
(* <<length byte, bytes>> (255: non-terminating).                                *)
EXTENDS FindexCore

RECURSIVE Blocks(_, _)
Blocks(v, bl) ==
  IF Len(v) < bl THEN <<[t |-> TRUE, b |-> v]>>
  ELSE <<[t |-> FALSE, b |-> SubSeq(v, 1, bl)]>> \o Blocks(SubSeq(v, bl + 1, Len(v)), bl)

\* s: sequence of [op, v]; all the blocks with their operation bit
RECURSIVE AllBlocks(_, _)
AllBlocks(s, bl) ==
  IF s = <<>> THEN <<>>
  ELSE LET h == Head(s)  bs == Blocks(h.v, bl)
       IN [j \in DOMAIN bs |-> [t |-> bs[j].t, b |-> bs[j].b, add |-> h.op = "add"]] \o AllBlocks(Tail(s), bl)

Padding == [t |-> TRUE, b |-> <<>>, add |-> FALSE]
Decompose(s, bl, w) ==
  LET bs == AllBlocks(s, bl)
      n == CeilDiv(Len(bs), w)
  IN [l \in 1..n |-> [j \in 1..w |-> IF (l - 1) * w + j <= Len(bs) THEN bs[(l - 1) * w + j] ELSE Padding]]

RECURSIVE Flat(_)
Flat(lines) == IF lines = <<>> THEN <<>> ELSE Head(lines) \o Flat(Tail(lines))

\* reads blocks: set of the values that remain; st: blocks of the value being read
RECURSIVE ReadBlocks(_, _, _)
ReadBlocks(bs, cur, S) ==
  IF bs = <<>> THEN [ok |-> cur = <<>>, vals |-> S]
  ELSE LET h == Head(bs)
           v == IF cur = <<>> THEN h.b ELSE cur[2] \o h.b
           same == cur = <<>> \/ cur[1] = h.add
       IN IF ~same THEN [ok |-> FALSE, vals |-> S]
          ELSE IF h.t THEN ReadBlocks(Tail(bs), <<>>, IF h.add THEN S \cup {v} ELSE S \ {v})
          ELSE ReadBlocks(Tail(bs), <<h.add, v>>, S)
Recompose(lines) == ReadBlocks(Flat(lines), <<>>, {})

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bit(x, j) == (x \div Pow2(j)) % 2 = 1
==================================================================================
