--------------------------------- MODULE Index ---------------------------------
(* The abstract index: what a user of Findex relies on, in terms of complete   *)
(* operations. It is the specification that Findex.tla implements (checked by  *)
(* MCSeq: SeqExact) and that TraceSeq.tla checks the real code against.        *)
(*                                                                             *)
(* IndexGen uses it to generate the random histories executed on the real code.*)
EXTENDS FindexCore, FiniteSetsExt

CONSTANTS Kws, Data, NCreds

Values == ({"d"} \X Data) \cup ({"p"} \X Kws)
Pairs == {<<k, v[1], v[2]>> : k \in Kws, v \in Values}
Creds == 1..NCreds

VARIABLES
  m,     \* content: <<cred, kw>> -> set of values
  e,     \* keywords that have an entry
  cr,    \* current credentials
  last   \* last operation, for the properties and the generator

ivars == <<m, e, cr, last>>

IInit ==
  /\ m = [t \in Creds \X Kws |-> {}]
  /\ e = {}
  /\ cr = 1
  /\ last = [op |-> "init"]

ValsIn(S, k) == {<<x[2], x[3]>> : x \in {y \in S : y[1] = k}}
KwsIn(S) == {x[1] : x \in S}

Write(op, S) ==
  /\ m' = [t \in DOMAIN m |-> IF t[1] = cr THEN ApplyOp(op, m[t], ValsIn(S, t[2])) ELSE m[t]]
  /\ e' = e \cup {<<cr, k>> : k \in KwsIn(S)}
  /\ cr' = cr
  /\ last' = [op |-> op, cred |-> cr, as |-> S, new |-> {k \in KwsIn(S) : <<cr, k>> \notin e}]

Content(c) == [k \in Kws |-> m[<<c, k>>]]
Search(K, stop) ==
  /\ UNCHANGED <<m, e, cr>>
  /\ last' = [op |-> "search", cred |-> cr, kws |-> K, stop |-> stop,
              out |-> [k \in K |-> Closure(Content(cr), k)]]

Kept(S, drop) == {v \in S : v[1] = "p" \/ v[2] \notin drop}
\* T: keywords of the portion compacted
Compact(n, T, rate, drop) ==
  /\ n # cr
  /\ \A k \in Kws : <<n, k>> \notin e
  /\ m' = [t \in DOMAIN m |-> IF t[1] = n THEN IF t[2] \in T THEN Kept(m[<<cr, t[2]>>], drop) ELSE m[<<cr, t[2]>>]
                              ELSE IF t[1] = cr THEN {} ELSE m[t]]
  /\ e' = {t \in e : t[1] # cr} \cup {<<n, k>> : k \in {x \in Kws : <<cr, x>> \in e /\ (x \in T => Kept(m[<<cr, x>>], drop) # {})}}
  /\ cr' = n
  /\ last' = [op |-> "compact", cred |-> cr, to |-> n, rate |-> rate, drop |-> drop]

INext ==
  \/ \E op \in {"add", "del"}, S \in UNION {kSubset(n, Pairs) : n \in 1..2} : Write(op, S)
  \/ \E K \in SUBSET Kws : Search(K, 0)
  \/ \E n \in Creds, T \in SUBSET Kws, drop \in SUBSET Data :
        Compact(n, T, IF T = Kws THEN "full" ELSE "part", drop)
ISpec == IInit /\ [][INext]_ivars

(* ----------------------- properties of the abstraction -------------------- *)
\* what is not indexed has no value
EntryOfContent == \A t \in DOMAIN m : m[t] # {} => t \in e
\* other credentials are not affected
Isolation == [][\A t \in DOMAIN m : t[1] \notin {cr, cr'} => m'[t] = m[t]]_ivars
\* a compaction that rejects nothing preserves all the searches
CompactPreserves ==
  [][last'.op = "compact" /\ last'.drop = {} =>
       \A k \in Kws : LET o == [x \in Kws |-> m[<<cr, x>>]]
                          n == [x \in Kws |-> m'[<<cr', x>>]]
                      IN Closure(o, k) = Closure(n, k)]_ivars
\* deleting what was just added to an empty keyword empties it
SearchSound == last.op = "search" => \A k \in last.kws : last.out[k] \subseteq UNION {DataOf(m[t]) : t \in DOMAIN m}
================================================================================
