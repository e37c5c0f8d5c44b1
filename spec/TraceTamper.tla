-------------------------------- MODULE TraceTamper -------------------------------
(* Altered lines are detected, never misread.                                    *)
(*   misread        a search answered, or a filter was given, something that was *)
(*                  never indexed under these credentials and keyword            *)
(*   tamper.missed  an operation that needs an altered line succeeded            *)
(*   tamper.other   an untouched keyword is not answered as it should            *)
(*   tamper.write   a write that needs an altered entry succeeded or changed it  *)
(*   tamper.fail    an operation that needs no altered line failed               *)
(*   sizes          a value or token of a wrong size was accepted (or a right    *)
(*                  one refused)                                                 *)
EXTENDS TraceBase
VARIABLES ep, i, m, ever,
  tet, tct,   \* <<cred, kw>> whose entry / chain was altered
  sure, ntam, \* what certainly does not decrypt; number of alterations
  cur, fed, lvl, dig, bad
vars == <<ep, i, m, ever, tet, tct, sure, ntam, cur, fed, lvl, dig, bad>>
Init == /\ ep \in Ids /\ i = 1 /\ m = <<>> /\ ever = <<>> /\ tet = {} /\ tct = {} /\ sure = {} /\ ntam = 0
        /\ cur = [op |-> "none"] /\ fed = <<>> /\ lvl = {} /\ dig = "" /\ bad = {}
E0 == Ev(ep)[i]
Flag(cond, tag) == IF cond THEN {} ELSE {<<tag, i>>}
Inv == /\ E0.t = "inv" /\ cur' = E0 /\ fed' = <<>> /\ lvl' = SeqSet(E0.kws)
       /\ UNCHANGED <<m, ever, tet, tct, sure, ntam, dig, bad>>
Tampered == tet \cup tct
Iter ==
  /\ E0.t = "int"
  /\ LET f == PairsToFun(E0.fed)  t(k) == <<cur.cred, k>> IN
     /\ bad' = bad
          \cup Flag(\A k \in DOMAIN f : f[k] \subseteq At(ever, t(k)), "misread")
          \cup Flag(\A k \in DOMAIN f : t(k) \in Tampered \/ f[k] = At(m, t(k)), "tamper.other")
          \cup Flag(\A k \in lvl \ DOMAIN fed : t(k) \in Tampered \/ At(m, t(k)) = {} \/ k \in DOMAIN f, "tamper.other")
     /\ fed' = f @@ fed
     /\ lvl' = UNION {Pointers(f[k]) : k \in DOMAIN f}
  /\ UNCHANGED <<m, ever, tet, tct, sure, ntam, cur, dig>>
Flt ==
  /\ E0.t = "flt"
  /\ bad' = bad \cup Flag(SeqSet(E0.in) \subseteq UNION {DataOf(ever[t]) : t \in {x \in DOMAIN ever : x[1] = cur.cred}}, "misread")
  /\ UNCHANGED <<m, ever, tet, tct, sure, ntam, cur, fed, lvl, dig>>
\* what a search may need
Needs == LET g == [k \in {t[2] : t \in {x \in DOMAIN ever : x[1] = cur.cred}} |-> At(ever, <<cur.cred, k>>)]
         IN {<<cur.cred, k>> : k \in Reach(g, SeqSet(cur.kws), {})}
\* what a search certainly reads
Reached == LET g == [k \in {t[2] : t \in {x \in DOMAIN m : x[1] = cur.cred}} |-> At(m, <<cur.cred, k>>)]
           IN {<<cur.cred, k>> : k \in Reach(g, SeqSet(cur.kws), {})}
Writes == {<<cur.cred, k>> : k \in KwsOf(cur.as)}
Res ==
  /\ E0.t = "res"
  /\ bad' = bad
       \cup Flag(E0.st \in {"ok", "err"}, "panic")
       \cup (CASE cur.op = "search" ->
                    Flag(E0.st = "err" => Needs \cap Tampered # {}, "tamper.fail")
                    \cup Flag(E0.st = "ok" => Reached \cap sure = {}, "tamper.missed")
                    \cup Flag(E0.st = "ok" => LET out == PairsToFun(E0.out) IN
                                \A k \in SeqSet(cur.kws) : At(out, k) = Closure(fed, k), "misread")
               [] cur.op \in {"add", "del"} ->
                    Flag(E0.st = "ok" => Writes \cap tet = {}, "tamper.write")
                    \cup Flag(E0.st = "err" => Writes \cap tet # {}, "tamper.fail")
               [] cur.op = "compact" -> Flag(E0.st = "err" => Tampered # {}, "tamper.fail")
                    \cup Flag(E0.st = "ok" => \A t \in sure : t[1] # cur.cred \/ (t \notin tet /\ cur.rate # "full"), "tamper.missed")
               [] OTHER -> {<<"machinery", i>>})
  /\ LET w == cur.op \in {"add", "del"} /\ E0.st = "ok"
         V(t) == ValsOf(cur.as, t[2])
         old == {t \in DOMAIN ever : t[1] = cur.cred}
         nw == {<<cur.new, t[2]>> : t \in old}
         Move(f) == [t \in nw |-> At(f, t) \cup At(f, <<cur.cred, t[2]>>)] @@ f
     IN IF cur.op = "compact"
        \* whatever happens next must have been indexed; nothing exact is known
        THEN /\ ever' = Move(ever) /\ m' = Move(m)
             /\ tet' = tet /\ tct' = tct \cup nw \cup old
        ELSE /\ m' = IF w THEN [t \in Writes |-> ApplyOp(cur.op, At(m, t), V(t))] @@ m ELSE m
             /\ ever' = IF cur.op = "add" THEN [t \in Writes |-> At(ever, t) \cup V(t)] @@ ever ELSE ever
             /\ tet' = tet
             /\ tct' = IF cur.op \in {"add", "del"} /\ ~w THEN tct \cup Writes ELSE tct
  /\ UNCHANGED <<fed, lvl, cur, ntam>>
  /\ sure' = IF cur.op = "compact" THEN {} ELSE sure
  /\ dig' = IF cur.op = "search" \/ (cur.op # "compact" /\ E0.st = "err") THEN dig ELSE ""
Tamper ==
  /\ E0.t = "tamper"
  /\ LET t == <<E0.cred, E0.kw>> IN
     IF ~E0.done THEN UNCHANGED <<tet, tct, sure, ntam>>
     ELSE /\ ntam' = ntam + 1
          \* a second alteration may undo the first one
          /\ sure' = IF ntam = 0 THEN {t} ELSE {}
          /\ IF E0.tab = "et" THEN tet' = tet \cup {t} /\ tct' = tct ELSE tct' = tct \cup {t} /\ tet' = tet
  /\ dig' = ""
  /\ UNCHANGED <<m, ever, cur, fed, lvl, bad>>
Snap ==
  /\ E0.t = "snap"
  /\ bad' = bad \cup Flag(dig \in {"", E0.dig}, "tamper.write")
  /\ dig' = E0.dig
  /\ UNCHANGED <<m, ever, tet, tct, sure, ntam, cur, fed, lvl>>
Other ==
  /\ E0.t \notin {"inv", "int", "flt", "res", "tamper", "snap"}
  /\ bad' = bad \cup Flag(E0.t \notin {"die", "hang"}, "panic")
                \cup (IF E0.t = "sizes"
                      THEN Flag(E0.same /\ SeqSet(E0.entry) = {Meta(ep).sizes[1]} /\ SeqSet(E0.link) = {Meta(ep).sizes[2]}
                                /\ SeqSet(E0.token) = {Meta(ep).sizes[3]}, "sizes")
                      ELSE {})
  /\ UNCHANGED <<m, ever, tet, tct, sure, ntam, cur, fed, lvl, dig>>
Next ==
  /\ i <= Len(Ev(ep)) /\ i' = i + 1 /\ ep' = ep
  /\ (Inv \/ Iter \/ Flt \/ Res \/ Tamper \/ Snap \/ Other)
  /\ i' > Len(Ev(ep)) => Report(ep, bad')
Spec == Init /\ [][Next]_vars
===================================================================================
