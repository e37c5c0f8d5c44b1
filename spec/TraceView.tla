-------------------------------- MODULE TraceView --------------------------------
(* What the storage sees. An episode has two halves: twin executions, with the   *)
(* same shape but other keywords, values, labels and keys, and additions turned  *)
(* into deletions and conversely. What the storage receives and answers, up to   *)
(* the tokens and ciphertexts themselves, must be the same in both:              *)
(*   view    other accesses, or sizes, or another pattern of repeated tokens      *)
(*   leak    bytes of a keyword, value, label or key were sent to the storage    *)
(* Keywords have no order: the accesses of an operation of the same kind (one per *)
(* keyword, or one per batch of keywords) are compared as a bag of sizes, and     *)
(* their tokens together; those of a failed operation only by their kind, and    *)
(* its tokens count as not seen (the one that was met before the fault is any).  *)
EXTENDS TraceBase, ViewCore
VARIABLES ep, i, half,
  toks0,  \* toks when the current operation began
  toks,   \* tokens seen in this half -> operation and kind of access where it was first
  view,   \* views of the operations of the first half
  pos,    \* number of operations of the current half
  kinds, bag,  \* accesses of the current operation
  bad
vars == <<ep, i, half, toks0, toks, view, pos, kinds, bag, bad>>
Init == ep \in Ids /\ i = 1 /\ half = 0 /\ toks0 = <<>> /\ toks = <<>> /\ view = <<>> /\ pos = 0
        /\ kinds = <<>> /\ bag = <<>> /\ bad = {}
E0 == Ev(ep)[i]

Tok1(l) == {l[j][1] : j \in DOMAIN l}
AllToks == SeqSet(E0.tok) \cup Tok1(E0.old) \cup Tok1(E0.new) \cup Tok1(E0.ret)

Inv ==
  /\ E0.t = "inv"
  /\ pos' = pos + 1 /\ kinds' = <<>> /\ bag' = <<>> /\ toks0' = toks
  /\ UNCHANGED <<half, toks, view, bad>>
Db ==
  /\ E0.t = "db"
  /\ LET n == <<pos, E0.tab, E0.call>>
         v == <<E0.tab, E0.call, E0.st, E0.na, E0.nb, E0.nr>>
         k == <<E0.tab, E0.call>>
     IN /\ toks' = toks @@ [t \in AllToks |-> n]
        /\ bag' = Learn(bag, v, n, toks, SeqSet(E0.tok), Tok1(E0.old), Tok1(E0.new), Tok1(E0.ret))
        /\ kinds' = IF k \in SeqSet(kinds) THEN kinds ELSE Append(kinds, k)
  /\ UNCHANGED <<half, toks0, view, pos, bad>>
Res ==
  /\ E0.t = "res"
  /\ LET v == [st |-> E0.st, kinds |-> kinds, bag |-> IF E0.st = "ok" THEN bag ELSE <<>>] IN
     /\ view' = IF half = 0 THEN Append(view, v) ELSE view
     /\ toks' = IF E0.st = "ok" THEN toks ELSE toks0
     /\ bad' = IF half = 1 /\ (pos > Len(view) \/ view[IF pos > Len(view) THEN 1 ELSE pos] # v) THEN bad \cup {<<"view", i>>} ELSE bad
  /\ UNCHANGED <<half, toks0, pos, kinds, bag>>
Mark ==
  /\ E0.t = "mark"
  /\ IF E0.tag = "twin" THEN half' = 1 /\ pos' = 0 /\ toks' = <<>> /\ UNCHANGED bad
     ELSE /\ UNCHANGED <<half, pos, toks>>
          /\ bad' = IF half = 1 /\ E0.tag = "quiet" /\ pos # Len(view) THEN bad \cup {<<"view", i>>} ELSE bad
  /\ UNCHANGED <<toks0, view, kinds, bag>>
Other ==
  /\ E0.t \notin {"db", "inv", "res", "mark"}
  /\ bad' = bad \cup (IF E0.t = "leak" THEN {<<"leak", i>>} ELSE {})
                \cup (IF E0.t \in {"die", "hang"} THEN {<<"panic", i>>} ELSE {})
  /\ UNCHANGED <<half, toks0, toks, view, pos, kinds, bag>>
Next ==
  /\ i <= Len(Ev(ep)) /\ i' = i + 1 /\ ep' = ep
  /\ (Inv \/ Db \/ Res \/ Mark \/ Other)
  /\ i' > Len(Ev(ep)) => Report(ep, bad')
Spec == Init /\ [][Next]_vars
===================================================================================
