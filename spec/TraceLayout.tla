-------------------------------- MODULE TraceLayout -------------------------------
(* Lines stored by the real code, decrypted by an independent reader that follows *)
(* the documented layout, decoded by Codec.tla and compared with the content.     *)
(*   layout.entry  the entry is not where or what it should be                    *)
(*   layout.line   malformed line                                                 *)
(*   layout.vals   the lines do not give the content                              *)
EXTENDS TraceBase, Codec
VARIABLES ep, i, m, e, cur, bad
vars == <<ep, i, m, e, cur, bad>>
Init == /\ ep \in Ids /\ i = 1
        /\ m = IF Has(Meta(ep), "m0")
               THEN [t \in {<<x[1], x[2]>> : x \in SeqSet(Meta(ep).m0)} |->
                       UNION {SeqSet(x[3]) : x \in {y \in SeqSet(Meta(ep).m0) : <<y[1], y[2]>> = t}}]
               ELSE <<>>
        /\ e = DOMAIN m
        /\ cur = [op |-> "none"] /\ bad = {}
E0 == Ev(ep)[i]
Flag(cond, tag) == IF cond THEN {} ELSE {<<tag, i>>}
BL == 16
W == 5
Inv == E0.t = "inv" /\ cur' = E0 /\ UNCHANGED <<m, e, bad>>
Res ==
  /\ E0.t = "res"
  /\ LET ks == KwsOf(cur.as)
         old == {t \in DOMAIN m : t[1] = cur.cred}
     IN CASE cur.op \in {"add", "del"} /\ E0.st = "ok" ->
               /\ m' = [t \in {<<cur.cred, k>> : k \in ks} |-> ApplyOp(cur.op, At(m, t), ValsOf(cur.as, t[2]))] @@ m
               /\ e' = e \cup {<<cur.cred, k>> : k \in ks}
          [] cur.op = "compact" /\ E0.st = "ok" ->
               /\ m' = [t \in {<<cur.new, x[2]>> : x \in old} |-> At(m, <<cur.cred, t[2]>>)] @@ [t \in old |-> {}] @@ m
               /\ e' = {t \in e : t[1] # cur.cred} \cup {<<cur.new, t[2]>> : t \in {x \in old : m[x] # {}}}
          [] OTHER -> UNCHANGED <<m, e>>
  /\ bad' = bad \cup Flag(E0.st = "ok", "layout.fail")
  /\ cur' = cur
Block(op, j, b) == [t |-> b[1] # 255, b |-> SubSeq(b, 2, IF b[1] = 255 THEN BL + 1 ELSE b[1] + 1), add |-> Bit(op, j - 1)]
WellFormed(l) ==
  /\ Len(l[2]) = W /\ l[1] < Pow2(W)
  /\ \A j \in 1..W : LET b == l[2][j] IN
       /\ Len(b) = BL + 1 /\ (b[1] < BL \/ b[1] = 255)
       \* what is not used is zero
       /\ b[1] # 255 => \A k \in (b[1] + 2)..(BL + 1) : b[k] = 0
Layout ==
  /\ E0.t = "layout"
  /\ LET t == <<E0.cred, E0.kw>>
         fine == \A n \in DOMAIN E0.lines : WellFormed(E0.lines[n])
         dec == Recompose([n \in DOMAIN E0.lines |-> [j \in 1..W |-> Block(E0.lines[n][1], j, E0.lines[n][2][j])]])
         byt(v) == <<IF v[1] = "p" THEN 119 ELSE 108>> \o Meta(ep).raw[v[2]]
     IN bad' = bad
          \cup Flag(IF t \in e THEN E0.st = "ok" /\ E0.hash ELSE E0.st = "absent", "layout.entry")
          \cup Flag(fine, "layout.line")
          \cup (IF fine THEN Flag(dec.ok /\ dec.vals \ {<<>>} = {byt(v) : v \in At(m, t)}, "layout.vals") ELSE {})
  /\ UNCHANGED <<m, e, cur>>
Other ==
  /\ E0.t \notin {"inv", "res", "layout"}
  /\ bad' = bad \cup Flag(E0.t \notin {"die", "hang"}, "panic")
  /\ UNCHANGED <<m, e, cur>>
Next ==
  /\ i <= Len(Ev(ep)) /\ i' = i + 1 /\ ep' = ep
  /\ (Inv \/ Res \/ Layout \/ Other)
  /\ i' > Len(Ev(ep)) => Report(ep, bad')
Spec == Init /\ [][Next]_vars
===================================================================================
