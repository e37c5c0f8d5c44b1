------------------------------ MODULE WritersProof ------------------------------
(* The invariants of Writers.tla hold for any number of writers, readers and    *)
(* lines. Checked by tlapm.                                                     *)
EXTENDS Writers, TLAPS

ASSUME Params == /\ n \in [W -> Nat \ {0}]
                 /\ None \notin Entry
                 /\ Seeds # {}

TypeOK ==
  /\ entry \in Entry \cup {None}
  /\ pc \in [W -> {"start", "up", "ins", "done", "dead"}]
  /\ seen \in [W -> Entry \cup {None}]
  /\ com \subseteq W /\ new \subseteq W
  /\ base \in [W -> Nat] /\ sd \in [W -> Seeds]
  /\ lines \subseteq (Seeds \X Nat \X W)
  /\ rpc \in [R -> {"start", "links", "end"}]
  /\ rent \in [R -> Entry \cup {None}]
  /\ rdone \in [R -> SUBSET W]
  /\ rgot \in [R -> SUBSET (Seeds \X Nat \X W)]

\* writers
Ctl == \A w \in W : /\ pc[w] \in {"start", "up"} => w \notin com
                    /\ pc[w] \in {"ins", "done"} => w \in com
Fit == \A w \in com : entry # None /\ sd[w] = entry.seed /\ base[w] + n[w] <= entry.len
Own == \A s \in Seeds, p \in Nat, w \in W : <<s, p, w>> \in lines =>
          /\ w \in com /\ pc[w] \in {"done", "dead"}
          /\ s = sd[w] /\ base[w] + 1 <= p /\ p <= base[w] + n[w]
All == \A w \in W : ((\E s \in Seeds, p \in Nat : <<s, p, w>> \in lines) \/ pc[w] = "done") =>
          \A p \in Nat : base[w] + 1 <= p /\ p <= base[w] + n[w] => <<sd[w], p, w>> \in lines
\* readers
Cut == \A r \in R : rpc[r] # "start" =>
          IF rent[r] = None THEN rdone[r] = {}
          ELSE /\ entry # None /\ rent[r].seed = entry.seed /\ rent[r].len <= entry.len
               /\ \A w \in com : base[w] + n[w] <= rent[r].len \/ rent[r].len <= base[w]
Past == \A r \in R : rpc[r] # "start" => \A w \in rdone[r] :
          w \in com /\ pc[w] = "done" /\ rent[r] # None /\ base[w] + n[w] <= rent[r].len
Got == \A r \in R : rpc[r] = "end" =>
          /\ rgot[r] \subseteq lines
          /\ \A w \in W : ((\E s \in Seeds, p \in Nat : <<s, p, w>> \in rgot[r]) \/ w \in rdone[r]) =>
               \A p \in Nat : base[w] + 1 <= p /\ p <= base[w] + n[w] => <<sd[w], p, w>> \in rgot[r]
Inv == TypeOK /\ Ctl /\ Fit /\ Ordered /\ Own /\ All /\ Once /\ Cut /\ Past /\ Got

LEMMA Start == Init => Inv
  BY Params, SMTT(60) DEF Init, Inv, TypeOK, Ctl, Fit, Ordered, Own, All, Once, Cut, Past, Got, Entry

LEMMA Step == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE Params DEF Inv, TypeOK, Entry
<1>1. ASSUME NEW w \in W, Fetch(w) PROVE Inv'
  BY <1>1, SMTT(60) DEF Fetch, rvars, Ctl, Fit, Ordered, Before, Own, All, Once, Cut, Past, Got
<1>2. ASSUME NEW w \in W, Reject(w) PROVE Inv'
  BY <1>2, SMTT(60) DEF Reject, rvars, Ctl, Fit, Ordered, Before, Own, All, Once, Cut, Past, Got
<1>3. ASSUME NEW w \in W, Die(w) PROVE Inv'
  BY <1>3, SMTT(60) DEF Die, rvars, Ctl, Fit, Ordered, Before, Own, All, Once, Cut, Past, Got
<1>4. ASSUME NEW w \in W, Insert(w) PROVE Inv'
  <2> USE <1>4 DEF Insert, rvars
  <2>0. \A s \in Seeds, p \in Nat, v \in W : <<s, p, v>> \in lines' <=>
          (<<s, p, v>> \in lines \/ (v = w /\ s = sd[w] /\ base[w] + 1 <= p /\ p <= base[w] + n[w]))
    BY SMTT(60) DEF Mine
  <2>t. TypeOK'
    BY SMTT(60) DEF Mine
  <2>1. Ctl' /\ Fit' /\ Ordered' /\ Once'
    BY SMTT(60) DEF Ctl, Fit, Ordered, Before, Once
  <2>2. Own'
    BY <2>0, SMTT(60) DEF Own, Ctl
  <2>3. All'
    BY <2>0, SMTT(60) DEF All, Own
  <2>4. Cut' /\ Past'
    BY SMTT(60) DEF Cut, Past
  <2>5. Got'
    BY <2>0, SMTT(60) DEF Got
  <2> QED BY <2>t, <2>1, <2>2, <2>3, <2>4, <2>5
<1>5. ASSUME NEW w \in W, NEW s \in Seeds, Accept(w, s) PROVE Inv'
  <2> USE <1>5 DEF Accept, rvars
  <2>t. TypeOK'
    BY SMTT(60)
  <2>0. w \notin com /\ (entry = None => com = {})
    BY SMTT(60) DEF Ctl, Fit
  <2>1. Ctl' /\ Fit'
    BY <2>0, SMTT(60) DEF Ctl, Fit
  <2>2. Ordered'
    BY <2>0, SMTT(60) DEF Ordered, Before, Fit
  <2>3. Own' /\ All'
    BY <2>0, SMTT(60) DEF Own, All
  <2>4. Once'
    BY <2>0, SMTT(60) DEF Once
  <2>5. Cut'
    BY <2>0, SMTT(60) DEF Cut
  <2>6. Past' /\ Got'
    BY <2>0, SMTT(60) DEF Past, Got, Own
  <2> QED BY <2>t, <2>1, <2>2, <2>3, <2>4, <2>5, <2>6
<1>6. ASSUME NEW r \in R, RFetch(r) PROVE Inv'
  BY <1>6, SMTT(60) DEF RFetch, wvars, Ctl, Fit, Ordered, Before, Own, All, Once, Cut, Past, Got
<1>7. ASSUME NEW r \in R, RLinks(r) PROVE Inv'
  <2> USE <1>7 DEF RLinks, wvars
  <2>t. TypeOK'
    BY SMTT(60)
  <2>1. Ctl' /\ Fit' /\ Ordered' /\ Own' /\ All' /\ Once' /\ Cut' /\ Past'
    BY SMTT(60) DEF Ctl, Fit, Ordered, Before, Own, All, Once, Cut, Past
  <2>2. Got'
    <3>1. \A s \in Seeds, p \in Nat, v \in W : <<s, p, v>> \in rgot'[r] <=>
            (rent[r] # None /\ <<s, p, v>> \in lines /\ s = rent[r].seed /\ p <= rent[r].len)
      BY SMTT(60)
    <3>2. rgot'[r] \subseteq lines
      BY SMTT(60)
    <3>3. \A q \in R : q # r => rgot'[q] = rgot[q] /\ rpc'[q] = rpc[q]
      BY SMTT(60)
    <3> QED BY <3>1, <3>2, <3>3, SMTT(60) DEF Got, Own, All, Fit, Cut, Past
  <2> QED BY <2>t, <2>1, <2>2
<1>8. CASE UNCHANGED vars
  BY <1>8, SMTT(60) DEF vars, Ctl, Fit, Ordered, Before, Own, All, Once, Cut, Past, Got
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Next

LEMMA Enough == Inv => Safe
<1> SUFFICES ASSUME Inv PROVE Safe
  OBVIOUS
<1> USE Params DEF Inv, TypeOK, Entry
<1>0. \A l \in lines : \E s \in Seeds, p \in Nat, w \in W : l = <<s, p, w>>
  BY SMTT(60)
<1>1. Ordered /\ Once
  OBVIOUS
<1>2. NoClash
  BY <1>0, SMTT(60) DEF NoClash, Own, Ordered, Before, Fit, Ctl
<1>3. AllOrNothing
  BY <1>0, SMTT(60) DEF AllOrNothing, Own, All, Mine
<1>4. Reachable
  BY <1>0, SMTT(60) DEF Reachable, Own, Fit
<1>5. Acknowledged
  BY SMTT(60) DEF Acknowledged, All, Ctl, Mine
<1>6. ReadsWhole
  BY <1>0, SMTT(60) DEF ReadsWhole, Got, Own, Mine
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Safe

THEOREM Safety == Spec => []Safe
  BY Start, Step, Enough, PTL DEF Spec

THEOREM Order == Spec => RealTime
<1>1. Inv /\ [Next]_vars => [\A v \in W : v \in com' \ com => \A w \in com : base[w] + n[w] <= base'[v]]_vars
  <2> SUFFICES ASSUME Inv, Next, NEW v \in W, v \in com' \ com, NEW w \in com PROVE base[w] + n[w] <= base'[v]
    OBVIOUS
  <2> QED BY Params, SMTT(60) DEF Inv, TypeOK, Entry, Next, Fetch, Reject, Insert, Die, Accept, RFetch, RLinks, wvars, rvars, Fit, Ctl
<1> QED BY <1>1, Start, Step, PTL DEF Spec, RealTime
================================================================================
