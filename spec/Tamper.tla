---------------------------------- MODULE Tamper ---------------------------------
(* An adversary who writes in the storage (P16). Ciphertexts are symbolic: a      *)
(* line only opens with the key it was closed with, whatever its place (nothing   *)
(* binds a ciphertext to its token). Entries are closed with the key of the       *)
(* credentials, links with a key derived from the seed of their chain.            *)
(*                                                                                *)
(* Lines hold one block of two symbols (Codec.tla), so that a value of one symbol *)
(* takes a line and a value of three symbols takes two. Operations are            *)
(* sequential: Findex.tla deals with their storage accesses.                      *)
EXTENDS Codec, Functions, FiniteSetsExt, SequencesExt

CONSTANTS
  Hists,     \* set of histories [op, cred, k, v] applied before the adversary
  Programs,  \* set of sequences of operations applied afterwards
  Kws, Creds, KeyOf,
  Powers,    \* what the adversary may do, SUBSET {"junk", "alien", "chain", "entry", "swap", "remove"}
  MaxAlter   \* how many lines

VARIABLES hist, prog, et, ct, fresh, ever, val, alter, phase, ip, res
vars == <<hist, prog, et, ct, fresh, ever, val, alter, phase, ip, res>>

Toks == Creds \X Kws
Missing == [key |-> <<"missing", 0>>, plain |-> <<>>]
Junk == [key |-> <<"junk", 0>>, plain |-> <<>>]
Opens(key, line) == line.key = key
EKey(cr) == <<"entry", KeyOf[cr]>>
LKey(seed) == <<"link", seed>>

LinesOf(o) == Decompose(<<[op |-> o.op, v |-> o.v]>>, 2, 1)
\* one addition or deletion of one value under one keyword
Write(s, o) ==
  LET t == <<o.cred, o.k>>
      ls == LinesOf(o)
      e == IF s.et[t] = Missing THEN [seed |-> s.fresh + 1, kw |-> o.k, cred |-> o.cred, last |-> 0] ELSE s.et[t].plain
      e2 == [e EXCEPT !.last = @ + Len(ls)]
  IN [et |-> [s.et EXCEPT ![t] = [key |-> EKey(o.cred), plain |-> e2]],
      ct |-> [x \in {<<e.seed, e.last + j>> : j \in DOMAIN ls} |-> [key |-> LKey(e.seed), plain |-> ls[x[2] - e.last]]] @@ s.ct,
      fresh |-> s.fresh + 1,
      ever |-> [s.ever EXCEPT ![t] = IF o.op = "add" THEN @ \cup {o.v} ELSE @],
      val |-> [s.val EXCEPT ![t] = ApplyOp(o.op, @, {o.v})]]
RECURSIVE WriteAll(_, _)
WriteAll(s, os) == IF os = <<>> THEN s ELSE WriteAll(Write(s, Head(os)), Tail(os))
Empty == [et |-> [t \in Toks |-> Missing], ct |-> <<>>, fresh |-> 0, ever |-> [t \in Toks |-> {}], val |-> [t \in Toks |-> {}]]

Init ==
  /\ hist \in Hists /\ prog \in Programs
  /\ LET s == WriteAll(Empty, hist) IN
     et = s.et /\ ct = s.ct /\ fresh = s.fresh /\ ever = s.ever /\ val = s.val
  /\ alter = <<>> /\ phase = "attack" /\ ip = 1 /\ res = <<>>

(* ------------------------------- the adversary ----------------------------- *)
Stored == {t \in Toks : et[t] # Missing}
Owner(x) == CHOOSE t \in Stored : et[t].plain.seed = x[1]   \* of a place of the chain table, before the attack
Start == WriteAll(Empty, hist)
\* only the lines as they were written are worth moving
AlterEntry(t) ==
  \/ "junk" \in Powers /\ et' = [et EXCEPT ![t] = Junk] /\ alter' = Append(alter, [tab |-> "et", t |-> t, i |-> 0, how |-> "flip", u |-> t, j |-> 0])
  \/ \E u \in {x \in Toks : x # t /\ Start.et[x] # Missing} :
       /\ IF KeyOf[u[1]] # KeyOf[t[1]] THEN "alien" \in Powers ELSE "entry" \in Powers
       /\ et' = [et EXCEPT ![t] = Start.et[u]]
       /\ alter' = Append(alter, [tab |-> "et", t |-> t, i |-> 0, how |-> "move", u |-> u, j |-> 0])
  \/ "remove" \in Powers /\ et' = [et EXCEPT ![t] = Missing] /\ alter' = Append(alter, [tab |-> "et", t |-> t, i |-> 0, how |-> "remove", u |-> t, j |-> 0])
OwnerOf(x) == CHOOSE t \in Toks : Start.et[t] # Missing /\ Start.et[t].plain.seed = x[1]
AlterLink(x) ==
  LET rec(h, y) == [tab |-> "ct", t |-> OwnerOf(x), i |-> x[2], how |-> h, u |-> OwnerOf(y), j |-> y[2]] IN
  \/ "junk" \in Powers /\ ct' = [ct EXCEPT ![x] = Junk] /\ alter' = Append(alter, rec("flip", x))
  \/ \E y \in DOMAIN Start.ct \ {x} :
       /\ IF y[1] = x[1] THEN "swap" \in Powers ELSE IF OwnerOf(x)[1] = OwnerOf(y)[1] THEN "chain" \in Powers ELSE "alien" \in Powers
       /\ ct' = [ct EXCEPT ![x] = Start.ct[y]]
       /\ alter' = Append(alter, rec("move", y))
  \/ "remove" \in Powers /\ ct' = [y \in DOMAIN ct \ {x} |-> ct[y]] /\ alter' = Append(alter, rec("remove", x))
Attack ==
  /\ phase = "attack"
  /\ \/ /\ Len(alter) < MaxAlter
        /\ \/ \E t \in {y \in Stored : y[1] = 1} : AlterEntry(t) /\ UNCHANGED <<ct, phase>>
           \/ \E x \in {y \in DOMAIN ct \cap DOMAIN Start.ct : OwnerOf(y)[1] = 1} : AlterLink(x) /\ UNCHANGED <<et, phase>>
     \/ Len(alter) > 0 /\ phase' = "run" /\ UNCHANGED <<et, ct, alter>>
  /\ UNCHANGED <<hist, prog, fresh, ever, val, ip, res>>

(* ------------------------------- the operations ---------------------------- *)
\* what reading an entry gives: [ok, vals]
ReadChain(e) ==
  LET places == [j \in 1..e.last |-> <<e.seed, j>>]
      there == SelectSeq(places, LAMBDA x : x \in DOMAIN ct)
      lines == [j \in DOMAIN there |-> ct[there[j]]]
  IN IF \E j \in DOMAIN lines : ~Opens(LKey(e.seed), lines[j]) THEN [ok |-> FALSE, vals |-> {}]
     ELSE Recompose([j \in DOMAIN lines |-> lines[j].plain])
ReadKw(t) ==
  IF et[t] = Missing THEN [ok |-> TRUE, vals |-> {}]
  ELSE IF ~Opens(EKey(t[1]), et[t]) THEN [ok |-> FALSE, vals |-> {}]
  ELSE ReadChain(et[t].plain)

Op == prog[ip]
Done(r) == res' = Append(res, r) /\ ip' = ip + 1
Search ==
  /\ Op.op = "search"
  /\ LET r == [k \in Op.kws |-> ReadKw(<<Op.cred, k>>)] IN
     IF \E k \in Op.kws : ~r[k].ok THEN Done([st |-> "err"])
     ELSE Done([st |-> "ok", out |-> [k \in Op.kws |-> r[k].vals]])
  /\ UNCHANGED <<et, ct, fresh, ever, val>>
Modify ==
  /\ Op.op \in {"add", "del"}
  /\ LET t == <<Op.cred, Op.k>> IN
     IF et[t] # Missing /\ ~Opens(EKey(Op.cred), et[t])
     THEN Done([st |-> "err"]) /\ UNCHANGED <<et, ct, fresh, ever, val>>
     ELSE LET s == Write([et |-> et, ct |-> ct, fresh |-> fresh, ever |-> ever, val |-> val], Op)
              places == DOMAIN s.ct \ DOMAIN ct
          IN \* the insertion refuses places already used
             IF Cardinality(places) # Len(LinesOf(Op))
             THEN /\ Done([st |-> "err"]) /\ et' = s.et /\ UNCHANGED <<ct, val>> /\ fresh' = s.fresh /\ ever' = s.ever
             ELSE /\ Done([st |-> "ok"]) /\ et' = s.et /\ ct' = s.ct /\ fresh' = s.fresh /\ ever' = s.ever /\ val' = s.val
\* full compaction: [op, cred, new]
Compact ==
  /\ Op.op = "compact"
  /\ LET T == {t \in Toks : et[t] # Missing}
         foreign == \E t \in T : ~Opens(EKey(Op.cred), et[t])
         \* the entries of this index: the token must be the one of the keyword of the entry
         mine == {t \in T : Opens(EKey(Op.cred), et[t]) /\ et[t].plain.kw = t[2] /\ t[1] = Op.cred}
         r == [t \in mine |-> ReadChain(et[t].plain)]
     IN IF foreign \/ \E t \in mine : ~r[t].ok
        THEN Done([st |-> "err"]) /\ UNCHANGED <<et, ct, fresh, ever, val>>
        ELSE LET ix == CHOOSE f \in [mine -> 1..Cardinality(mine)] : \A a, b \in mine : a # b => f[a] # f[b]
                 keep == {t \in mine : r[t].vals # {}}
                 ls(t) == Decompose(SetToSeq({[op |-> "add", v |-> v] : v \in r[t].vals}), 2, 1)
                 seed(t) == fresh + ix[t]
                 olds == UNION {{<<et[t].plain.seed, j>> : j \in 1..et[t].plain.last} : t \in mine}
                 new == UNION {{<<seed(t), j>> : j \in DOMAIN ls(t)} : t \in keep}
                 of(x) == CHOOSE t \in keep : seed(t) = x[1]
                 from(t) == <<Op.cred, t[2]>>
             IN /\ Done([st |-> "ok"])
                /\ et' = [t \in Toks |->
                            IF t[1] = Op.new /\ from(t) \in keep
                            THEN [key |-> EKey(Op.new), plain |-> [seed |-> seed(from(t)), kw |-> t[2], cred |-> Op.new, last |-> Len(ls(from(t)))]]
                            ELSE IF t \in mine THEN Missing ELSE et[t]]
                /\ ct' = [x \in new |-> [key |-> LKey(x[1]), plain |-> ls(of(x))[x[2]]]] @@ [x \in DOMAIN ct \ olds |-> ct[x]]
                /\ fresh' = fresh + Cardinality(mine)
                /\ ever' = [t \in Toks |-> IF t[1] = Op.new THEN ever[t] \cup ever[from(t)] ELSE ever[t]]
                /\ val' = [t \in Toks |-> IF t[1] = Op.new THEN val[from(t)] ELSE IF t[1] = Op.cred THEN {} ELSE val[t]]
Next == Attack \/ (phase = "run" /\ ip <= Len(prog) /\ UNCHANGED <<hist, prog, alter, phase>> /\ (Search \/ Modify \/ Compact))
Spec == Init /\ [][Next]_vars

(* -------------------------------- properties ------------------------------- *)
Altered == {alter[j].t : j \in DOMAIN alter}
LastOp == prog[ip - 1]
Ran == phase = "run" /\ ip > 1
Result == res[Len(res)]
\* nothing is answered that was not indexed under this keyword
NeverMisread ==
  Ran /\ LastOp.op = "search" /\ Result.st = "ok" => \A k \in LastOp.kws : Result.out[k] \subseteq ever[<<LastOp.cred, k>>]
\* what was not altered stays readable
OthersKept ==
  Ran /\ LastOp.op = "search" =>
    /\ Result.st = "err" => \E k \in LastOp.kws : <<LastOp.cred, k>> \in Altered
    \* (a compaction may have gone over altered lines)
    /\ Result.st = "ok" => \A k \in LastOp.kws : <<LastOp.cred, k>> \in Altered \/ <<1, k>> \in Altered
                                              \/ Result.out[k] = val[<<LastOp.cred, k>>]
\* an operation that needs an altered line fails
Detected ==
  Ran /\ Result.st = "ok" =>
    CASE LastOp.op = "search" -> \A k \in LastOp.kws : <<LastOp.cred, k>> \notin Altered
      [] LastOp.op = "compact" -> \A t \in Altered : t[1] # LastOp.cred
      [] OTHER -> \A j \in DOMAIN alter : ~(alter[j].tab = "et" /\ alter[j].t = <<LastOp.cred, LastOp.k>>)
\* an operation that fails met an altered line, and changed nothing
FailsOnlyAltered ==
  Ran /\ Result.st = "err" =>
    CASE LastOp.op = "search" -> TRUE [] LastOp.op = "compact" -> Altered # {} [] OTHER -> <<LastOp.cred, LastOp.k>> \in Altered
FailsUnchanged == [][(phase = "run" /\ ip' # ip /\ res'[Len(res')].st = "err") => UNCHANGED <<et, ct>>]_vars
\* an entry that does not open is never replaced
NotReplaced == [][\A t \in Toks : (phase = "run" /\ et[t] # Missing /\ ~Opens(EKey(t[1]), et[t])) => et'[t] = et[t]]_vars
==================================================================================
