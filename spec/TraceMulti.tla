-------------------------------- MODULE TraceMulti --------------------------------
(* Replicas of an index (Replicas.tla), written apart and then merged in a        *)
(* storage that keeps all the values of a token: a search answers the union of    *)
(* what each of the entries leads to; a modification or a compaction that         *)
(* involves a keyword with several entries fails without writing anything.        *)
EXTENDS TraceBase
VARIABLES ep, i,
  reps,    \* per replica: kw -> [id, vals]; id tells which operation wrote the entry
  all,     \* after the merge: kw -> set of [id, vals]
  merged, live, cur, fed, lvl, dig, bad
vars == <<ep, i, reps, all, merged, live, cur, fed, lvl, dig, bad>>
Init == /\ ep \in Ids /\ i = 1 /\ reps = <<<<>>>> /\ all = <<>> /\ merged = FALSE /\ live = Meta(ep).live
        /\ cur = [op |-> "none"] /\ fed = <<>> /\ lvl = {} /\ dig = "" /\ bad = {}
E0 == Ev(ep)[i]
Flag(cond, tag) == IF cond THEN {} ELSE {<<tag, i>>}
\* the replica that a client works on
RepOf(c) == CASE c = "m1" -> 2 [] c = "m2" -> 3 [] c = "m3" -> 4 [] OTHER -> 1
R == RepOf(cur.c)
Entries(k) == IF merged THEN At(all, k) ELSE IF k \in DOMAIN reps[R] THEN {reps[R][k]} ELSE {}
\* searches with former credentials find nothing
Val(k) == IF cur.cred # live THEN {} ELSE UNION {x.vals : x \in Entries(k)}
Known == IF merged THEN DOMAIN all ELSE DOMAIN reps[R]
Inv == /\ E0.t = "inv" /\ cur' = E0 /\ fed' = <<>> /\ lvl' = SeqSet(E0.kws)
       /\ UNCHANGED <<reps, all, merged, live, dig, bad>>
Iter ==
  /\ E0.t = "int"
  /\ \E f \in {PairsToFun(E0.fed)} :
     /\ bad' = bad
          \cup Flag(DOMAIN f \subseteq lvl /\ ~DupKeys(E0.fed), "multi.fed")
          \cup Flag(\A k \in DOMAIN f : f[k] = Val(k), "multi.fed")
          \cup Flag(\A k \in lvl \ DOMAIN fed : Val(k) = {} \/ k \in DOMAIN f, "multi.miss")
     /\ fed' = f @@ fed
     /\ lvl' = UNION {Pointers(f[k]) : k \in DOMAIN f}
  /\ UNCHANGED <<reps, all, merged, live, cur, dig>>
Res ==
  /\ E0.t = "res"
  /\ \E out \in {IF cur.op = "search" THEN PairsToFun(E0.out) ELSE <<>>},
        both \in {IF cur.op = "search" THEN TLCEval([x \in Known |-> Val(x)]) ELSE <<>>} :
     LET w == cur.op \in {"add", "del"}
         ks == KwsOf(cur.as)
         two == {k \in DOMAIN all : Cardinality(all[k]) > 1}
         conflict == merged /\ CASE w -> ks \cap two # {} [] cur.op = "compact" -> two # {} [] OTHER -> FALSE
         ok == E0.st = "ok"
         new == [k \in ks |-> [id |-> i, copy |-> 0, vals |-> ApplyOp(cur.op, Val(k), ValsOf(cur.as, k))]]
     IN /\ bad' = bad
             \cup Flag(E0.st \in {"ok", "err"}, "panic")
             \cup Flag(conflict => ~ok, "multi.write")
             \cup Flag(~conflict => ok, "spurious")
             \cup (IF w /\ ok /\ ~conflict THEN Flag(/\ {k \in ks : Entries(k) = {}} \subseteq SeqSet(E0.new)
                                               \* a compaction may have emptied a keyword
                                               /\ \A k \in SeqSet(E0.new) : k \in ks /\ (Entries(k) = {} \/ (live # Meta(ep).live /\ Val(k) = {})), "multi.new") ELSE {})
             \cup (IF cur.op = "search" /\ ok
                   THEN Flag(/\ DOMAIN out \subseteq SeqSet(cur.kws)
                             /\ \A k \in SeqSet(cur.kws) : At(out, k) = Closure(both, k), "multi.out")
                   ELSE {})
        /\ IF w /\ ok
           THEN IF merged THEN all' = [k \in ks |-> {new[k]}] @@ all /\ UNCHANGED reps
                ELSE reps' = [reps EXCEPT ![R] = new @@ @] /\ UNCHANGED all
           ELSE UNCHANGED <<reps, all>>
        /\ live' = IF cur.op = "compact" /\ ok THEN cur.new ELSE live
        /\ dig' = IF ok /\ cur.op # "search" THEN "" ELSE dig
  /\ UNCHANGED <<merged, cur, fed, lvl>>
Fork ==
  /\ E0.t = "fork"
  /\ reps' = [j \in 1..E0.n |-> IF j = 1 \/ E0.copy THEN reps[1] ELSE <<>>]
  /\ UNCHANGED <<all, merged, live, cur, fed, lvl, dig, bad>>
Merged ==
  /\ E0.t = "merged" /\ merged' = TRUE /\ dig' = ""
  \* (identical entries are kept apart by some storages)
  /\ all' = TLCEval([k \in UNION {DOMAIN reps[j] : j \in DOMAIN reps} |->
              {[reps[j][k] EXCEPT !.copy = IF E0.bag THEN j ELSE 0] : j \in {x \in DOMAIN reps : k \in DOMAIN reps[x]}}])
  \* the storage must hold as many more values as the specification says
  /\ bad' = bad \cup Flag(E0.et = Cardinality(UNION {{<<k, x>> : x \in all'[k]} : k \in DOMAIN all'}) - Cardinality(DOMAIN all'), "machinery")
                \cup Flag(E0.bag \/ E0.ct = 0, "machinery")
  /\ UNCHANGED <<reps, live, cur, fed, lvl>>
Snap ==
  /\ E0.t = "snap"
  /\ bad' = bad \cup Flag(dig \in {"", E0.dig}, "multi.changed")
  /\ dig' = E0.dig
  /\ UNCHANGED <<reps, all, merged, live, cur, fed, lvl>>
Other ==
  /\ E0.t \notin {"inv", "int", "res", "fork", "merged", "snap"}
  /\ bad' = bad \cup Flag(E0.t \notin {"die", "hang"}, "panic")
  /\ UNCHANGED <<reps, all, merged, live, cur, fed, lvl, dig>>
Next ==
  /\ i <= Len(Ev(ep)) /\ i' = i + 1 /\ ep' = ep
  /\ (Inv \/ Iter \/ Res \/ Fork \/ Merged \/ Snap \/ Other)
  /\ i' > Len(Ev(ep)) => Report(ep, bad')
Spec == Init /\ [][Next]_vars
===================================================================================
