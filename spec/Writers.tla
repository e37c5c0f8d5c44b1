--------------------------------- MODULE Writers ---------------------------------
(* How any number of additions and deletions share the chain of one keyword,    *)
(* while any number of searches read it. This is the abstraction of one         *)
(* keyword of Findex.tla: a chain position stands for one line, an operation    *)
(* takes as many lines as it needs, and clients fail or die anywhere.           *)
(*                                                                              *)
(* The invariant below is proved for any number of clients and any number of    *)
(* lines in WritersProof.tla, and the design specification is checked to        *)
(* implement this one in WritersMC.tla.                                         *)
EXTENDS Integers

CONSTANTS W,      \* the writers
          R,      \* the readers
          Seeds,  \* what the chains are derived from
          None,   \* no entry
          n       \* lines needed by each writer
VARIABLES entry,  \* the entry of the keyword
          pc, seen,           \* of each writer: control state, what it believes the entry to be
          com,                \* writers whose entry was accepted
          base, sd,           \* their chain and where their lines begin
          new,                \* writers that report the keyword as new
          lines,              \* stored lines: <<seed, position, writer>>
          rpc, rent, rdone, rgot  \* readers: control state, entry read, writers that were done, lines read
wvars == <<entry, pc, seen, com, base, sd, new, lines>>
rvars == <<rpc, rent, rdone, rgot>>
vars == <<entry, pc, seen, com, base, sd, new, lines, rpc, rent, rdone, rgot>>

Entry == [seed : Seeds, len : Nat]

Init ==
  /\ entry = None
  /\ pc = [w \in W |-> "start"] /\ seen = [w \in W |-> None]
  /\ com = {} /\ base = [w \in W |-> 0] /\ sd \in [W -> Seeds] /\ new = {} /\ lines = {}
  /\ rpc = [r \in R |-> "start"] /\ rent = [r \in R |-> None]
  /\ rdone = [r \in R |-> {}] /\ rgot = [r \in R |-> {}]

Mine(w) == {<<sd[w], p, w>> : p \in (base[w] + 1)..(base[w] + n[w])}

Fetch(w) ==
  /\ pc[w] = "start"
  /\ seen' = [seen EXCEPT ![w] = entry]
  /\ pc' = [pc EXCEPT ![w] = "up"]
  /\ UNCHANGED <<entry, com, base, sd, new, lines, rvars>>

\* the conditional upsert is accepted: the lines that follow the last one are taken
Accept(w, s) ==
  /\ pc[w] = "up" /\ seen[w] = entry
  /\ entry' = IF entry = None THEN [seed |-> s, len |-> n[w]] ELSE [seed |-> entry.seed, len |-> entry.len + n[w]]
  /\ base' = [base EXCEPT ![w] = IF entry = None THEN 0 ELSE entry.len]
  /\ sd' = [sd EXCEPT ![w] = IF entry = None THEN s ELSE entry.seed]
  /\ new' = IF entry = None THEN new \cup {w} ELSE new
  /\ com' = com \cup {w}
  /\ \E x \in {"ins", "dead"} : pc' = [pc EXCEPT ![w] = x]
  /\ UNCHANGED <<seen, lines, rvars>>
\* it is rejected: the stored entry is returned
Reject(w) ==
  /\ pc[w] = "up" /\ seen[w] # entry
  /\ seen' = [seen EXCEPT ![w] = entry]
  /\ \E x \in {"up", "dead"} : pc' = [pc EXCEPT ![w] = x]
  /\ UNCHANGED <<entry, com, base, sd, new, lines, rvars>>

Insert(w) ==
  /\ pc[w] = "ins"
  /\ lines' = lines \cup Mine(w)
  /\ \E x \in {"done", "dead"} : pc' = [pc EXCEPT ![w] = x]
  /\ UNCHANGED <<entry, seen, com, base, sd, new, rvars>>

\* a failure without effect, or the death of the client
Die(w) ==
  /\ pc[w] \in {"start", "up", "ins"}
  /\ pc' = [pc EXCEPT ![w] = "dead"]
  /\ UNCHANGED <<entry, seen, com, base, sd, new, lines, rvars>>

RFetch(r) ==
  /\ rpc[r] = "start"
  /\ rent' = [rent EXCEPT ![r] = entry]
  /\ rdone' = [rdone EXCEPT ![r] = {w \in W : pc[w] = "done"}]
  /\ rpc' = [rpc EXCEPT ![r] = "links"]
  /\ UNCHANGED <<wvars, rgot>>
RLinks(r) ==
  /\ rpc[r] = "links"
  /\ rgot' = [rgot EXCEPT ![r] = IF rent[r] = None THEN {}
                                 ELSE {l \in lines : l[1] = rent[r].seed /\ l[2] <= rent[r].len}]
  /\ rpc' = [rpc EXCEPT ![r] = "end"]
  /\ UNCHANGED <<wvars, rent, rdone>>

Next ==
  \/ \E w \in W : \/ Fetch(w) \/ Reject(w) \/ Insert(w) \/ Die(w)
                  \/ \E s \in Seeds : Accept(w, s)
  \/ \E r \in R : RFetch(r) \/ RLinks(r)
Spec == Init /\ [][Next]_vars

(* -------------------------------- properties ------------------------------- *)
Before(v, w) == base[v] + n[v] <= base[w]
\* P05, P06: the lines of the writers follow each other, in the order of their upserts
Ordered == \A v, w \in com : v # w => Before(v, w) \/ Before(w, v)
\* P04: as soon as the keyword has an entry exactly one writer created it
Once == IF entry = None THEN new = {} ELSE \E w \in com : new = {w}
\* P06: insertions never meet used tokens
NoClash == \A w \in W : pc[w] = "ins" =>
             \A p \in (base[w] + 1)..(base[w] + n[w]) : \A l \in lines : ~(l[1] = sd[w] /\ l[2] = p)
\* P06: the lines of a writer are stored all together or not at all, and reachable
AllOrNothing == \A w \in W : \/ \A l \in lines : l[3] # w
                             \/ Mine(w) \subseteq lines /\ w \in com
Reachable == \A l \in lines : entry # None /\ l[1] = entry.seed /\ l[2] <= entry.len
\* P05: acknowledged modifications are there
Acknowledged == \A w \in W : pc[w] = "done" => w \in com /\ Mine(w) \subseteq lines
\* P05, P06: a search sees whole modifications only, and all those that were
\* acknowledged before it began
ReadsWhole == \A r \in R : rpc[r] = "end" =>
                /\ \A w \in rdone[r] : Mine(w) \subseteq rgot[r]
                /\ \A w \in W : (\A l \in rgot[r] : l[3] # w) \/ Mine(w) \subseteq rgot[r]
                /\ \A l \in rgot[r] : l[3] \in com
Safe == Ordered /\ Once /\ NoClash /\ AllOrNothing /\ Reachable /\ Acknowledged /\ ReadsWhole
\* P05: real-time order: a writer comes after all those whose entry was accepted before it began
RealTime == [][\A v \in W : v \in com' \ com => \A w \in com : base[w] + n[w] <= base'[v]]_vars
==================================================================================
