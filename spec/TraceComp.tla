-------------------------------- MODULE TraceComp --------------------------------
(* Validates histories where compactions run at the same time as other          *)
(* operations, fail or die. All the credentials of the episode are different    *)
(* addresses of one logical index: after everything the content of a keyword is *)
(* what can be read of it under any of them ("final" searches).                 *)
(*                                                                              *)
(*   lost     an association that should have survived cannot be read anywhere, *)
(*            or an acknowledged modification has no effect                     *)
(*   lost.window  ... but the modification was made in the window where the     *)
(*            compaction does not see it (Findex!InWindow; known finding)       *)
(*   split    no single pair of credentials gives the whole of a keyword        *)
(*   swallow  an operation succeeded though one of its storage accesses failed   *)
(*   conc.fail  a search failed without reason                                  *)
(*   invent   something was read that was never indexed                         *)
EXTENDS TraceBase

VARIABLES ep, i, pend,
  lin,     \* <<kw, type, value>> -> configurations
  ever,    \* <<kw, type, value>> whose addition began
  ent,     \* keywords that have, or had, an entry
  ph,      \* client -> "in" (entries read, not deleted yet) | "out"
  acc,     \* client -> has written its entries, not yet its links
  risk,    \* keywords modified in the window
  mv,      \* <<cred, kw>> whose entry was created although the keyword already had one
  obs,     \* cred -> kw -> values, read by the final searches
  bad
vars == <<ep, i, pend, lin, ever, ent, ph, acc, risk, mv, obs, bad>>

Init ==
  /\ ep \in Ids /\ i = 1
  /\ pend = <<>> /\ lin = <<>> /\ ever = {} /\ ent = {} /\ ph = <<>> /\ acc = <<>>
  /\ risk = {} /\ mv = {} /\ obs = <<>> /\ bad = {}

E0 == Ev(ep)[i]
Flag(cond, tag) == IF cond THEN {} ELSE {<<tag, i>>}
IsWrite(e) == e.op \in {"add", "del"}
Regs(e) == SeqSet(e.as)
Finals == SeqSet(Meta(ep).finals)
Op(c) == pend[c].e.op

\* a compaction may remove what its filter rejects
Kind(e, r) ==
  CASE IsWrite(e) -> IF r \in Regs(e) THEN IF e.op = "add" THEN "set1" ELSE "set0" ELSE "no"
    [] e.op = "compact" -> IF r[2] = "d" /\ r[3] \in SeqSet(e.drop) THEN "set0" ELSE "no"
    [] OTHER -> "no"
PendV(p, r) == {x \in {<<p[c].id, Kind(p[c].e, r)>> : c \in DOMAIN p} : x[2] # "no"}

Inv ==
  /\ E0.t = "inv"
  /\ pend' = (E0.c :> [id |-> i, e |-> E0, fed |-> <<>>, ent |-> ent]) @@ pend
  /\ IF IsWrite(E0)
     THEN /\ lin' = lin @@ [r \in Regs(E0) |-> LinInit(FALSE)]
          /\ ever' = IF E0.op = "add" THEN ever \cup Regs(E0) ELSE ever
     ELSE UNCHANGED <<lin, ever>>
  /\ ph' = (E0.c :> "out") @@ ph /\ acc' = (E0.c :> FALSE) @@ acc
  /\ UNCHANGED <<ent, risk, mv, obs, bad>>

Iter ==
  /\ E0.t = "int"
  /\ \E f \in {PairsToFun(E0.fed)} :
        /\ bad' = bad \cup Flag(\A k \in DOMAIN f : \A v \in f[k] : <<k, v[1], v[2]>> \in ever, "invent")
        /\ pend' = [pend EXCEPT ![E0.c].fed = f @@ @]
  /\ UNCHANGED <<lin, ever, ent, ph, acc, risk, mv, obs>>

\* the storage accesses tell where the window is
Db ==
  /\ E0.t = "db"
  /\ LET c == E0.c
         comp == Op(c) = "compact"
         call == E0.tab \o "." \o E0.call
         did == E0.st \in {"ok", "failafter"}
         writers == {w \in DOMAIN pend : IsWrite(pend[w].e) /\ acc[w] /\ pend[w].e.cred = pend[c].e.cred}
     IN /\ ph' = IF comp /\ call = "et.fetch" /\ did THEN [ph EXCEPT ![c] = "in"]
                 ELSE IF comp /\ call = "et.delete" THEN [ph EXCEPT ![c] = "out"] ELSE ph
        /\ acc' = IF IsWrite(pend[c].e) /\ call = "et.upsert" /\ did THEN [acc EXCEPT ![c] = TRUE]
                  ELSE IF IsWrite(pend[c].e) /\ call = "ct.insert" /\ did THEN [acc EXCEPT ![c] = FALSE] ELSE acc
        /\ risk' = risk
             \cup (IF IsWrite(pend[c].e) /\ call = "et.upsert" /\ did /\ \E d \in DOMAIN pend : Op(d) = "compact" /\ ph[d] = "in" /\ pend[d].e.cred = pend[c].e.cred
                   THEN KwsOf(pend[c].e.as) \cap ent ELSE {})
             \cup (IF comp /\ call = "ct.fetch" THEN UNION {KwsOf(pend[w].e.as) : w \in writers} ELSE {})
        /\ ent' = IF IsWrite(pend[c].e) /\ call = "et.upsert" /\ did THEN ent \cup KwsOf(pend[c].e.as) ELSE ent
  /\ UNCHANGED <<pend, lin, ever, mv, obs, bad>>

Flt == E0.t = "flt" /\ UNCHANGED <<pend, lin, ever, ent, ph, acc, risk, mv, obs, bad>>

Drop(p, c) == [x \in DOMAIN p \ {c} |-> p[x]]
\* final searches: everything is done
Judge(o) ==
  LET read(r) == \E cr \in DOMAIN o : <<r[2], r[3]>> \in At(o[cr], r[1])
      wrong == {r \in DOMAIN lin : \A c \in LinClose(lin[r], PendV(pend, r)) : c.b # read(r)}
      sure(k) == {<<r[2], r[3]>> : r \in {x \in DOMAIN lin : x[1] = k /\ \A c \in LinClose(lin[x], PendV(pend, x)) : c.b}}
      kws == {r[1] : r \in DOMAIN lin}
  IN Flag(\A r \in wrong : r[1] \in risk, "lost")
     \cup Flag(\A r \in wrong : r[1] \notin risk, "lost.window")
     \cup Flag(\A k \in kws \ {m[2] : m \in mv} : \E cr \in DOMAIN o : sure(k) \subseteq At(o[cr], k), "split")

Res ==
  /\ E0.t = "res"
  /\ \E out \in {IF Op(E0.c) = "search" THEN PairsToFun(E0.out) ELSE <<>>} :
     LET c == E0.c  p == pend[c]  e == p.e  ok == E0.st = "ok"
         again == {<<e.cred, k>> : k \in SeqSet(E0.new) \cap p.ent}
         \* deletion of a keyword already moved, or written under both credentials
         moved == {t[2] : t \in {x \in mv \cup again : e.op = "del"}} \cup {k \in SeqSet(E0.new) : e.op = "del"}
         aff == {r \in DOMAIN lin : Kind(e, r) # "no"}
         final == e.op = "search" /\ e.arg = "final"
         o2 == IF final THEN (e.cred :> p.fed) @@ obs ELSE obs
     IN /\ lin' = [r \in aff |-> IF ok /\ IsWrite(e) /\ r[1] \notin moved THEN LinReturnAny(lin[r], PendV(pend, r), p.id)
                                 ELSE LinAbort(lin[r], PendV(pend, r), p.id)] @@ lin
        /\ obs' = o2
        /\ pend' = Drop(pend, c)
        /\ mv' = mv \cup again
        /\ ph' = Drop(ph, c) /\ acc' = Drop(acc, c)
        /\ bad' = bad
             \cup Flag(E0.st \in {"ok", "err", "crash"}, "panic")
             \cup Flag(e.op = "search" /\ E0.hit = 0 => ok, "conc.fail")
             \cup Flag(ok => E0.hit = 0, "swallow")
             \cup Flag(e.op = "search" /\ ok => \A k \in DOMAIN out : \A d \in out[k] : \E r \in ever : r[2] = "d" /\ r[3] = d, "invent")
             \cup (IF final /\ ok /\ DOMAIN o2 = Finals THEN Judge(o2) ELSE {})
  /\ UNCHANGED <<ever, ent, risk>>

Other ==
  /\ E0.t \notin {"inv", "int", "res", "db", "flt"}
  /\ bad' = bad \cup Flag(E0.t \notin {"die", "hang"}, "panic")
  /\ UNCHANGED <<pend, lin, ever, ent, ph, acc, risk, mv, obs>>

Next ==
  /\ i <= Len(Ev(ep))
  /\ i' = i + 1 /\ ep' = ep
  /\ (Inv \/ Iter \/ Db \/ Flt \/ Res \/ Other)
  /\ i' > Len(Ev(ep)) => Report(ep, bad')
Spec == Init /\ [][Next]_vars
=================================================================================
