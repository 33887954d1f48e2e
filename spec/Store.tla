------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The task table every store is: from task id to [v, t], v the version    *)
(* that was written, t the run time (a rank on the line of time, NoT when   *)
(* paused).  Records that cannot be decoded are kept apart: bro maps their  *)
(* id to the run time the store may still have noted for them.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoT == -1
Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
RangeOf(s) == {s[k] : k \in DOMAIN s}

Fresh == [tab |-> Empty, bro |-> Empty]

(* writes: the set of possible <<answer, table afterwards>> *)
Adds(s, id, v, t) ==
  IF id \in DOMAIN s.tab THEN {<<"conflict", s>>}
  ELSE {<<"ok", [tab |-> Put(s.tab, id, [v |-> v, t |-> t]), bro |-> Drop(s.bro, {id})]>>}
       \cup (IF id \in DOMAIN s.bro THEN {<<"conflict", s>>} ELSE {})
Updates(s, id, v, t) ==
  IF id \in DOMAIN s.tab THEN {<<"ok", [s EXCEPT !.tab = Put(@, id, [v |-> v, t |-> t])]>>}
  ELSE {<<"missing", s>>}
       \cup (IF id \in DOMAIN s.bro
             THEN {<<"ok", [tab |-> Put(s.tab, id, [v |-> v, t |-> t]), bro |-> Drop(s.bro, {id})]>>} ELSE {})
Deletes(s, id) ==
  IF id \in DOMAIN s.tab THEN {<<"ok", [s EXCEPT !.tab = Drop(@, {id})]>>}
  ELSE {<<"missing", s>>}
       \cup (IF id \in DOMAIN s.bro THEN {<<"ok", [s EXCEPT !.bro = Drop(@, {id})]>>} ELSE {})
Clear(s) == Fresh
\* a record became unreadable; noted is the run time the store keeps beside it
Break(s, id, noted) == [tab |-> Drop(s.tab, {id}), bro |-> Put(s.bro, id, noted)]
BreakAll(s) == [tab |-> Empty, bro |-> [x \in DOMAIN s.tab \cup DOMAIN s.bro |->
                                          IF x \in DOMAIN s.tab THEN s.tab[x].t ELSE s.bro[x]]]
\* reading finds out about unreadable records, they do not count as next any more
Read(s, ids) == [s EXCEPT !.bro = [x \in DOMAIN @ |-> IF x \in ids THEN NoT ELSE @[x]]]

(* reads *)
Scheduled(s) == {x \in DOMAIN s.tab : s.tab[x].t # NoT}
DueIds(s, now) == {x \in Scheduled(s) : s.tab[x].t <= now}
DueBroken(s, now) == {x \in DOMAIN s.bro : s.bro[x] # NoT /\ s.bro[x] <= now}
MinT(S) == CHOOSE t \in S : \A u \in S : t <= u
NextT(s) == IF Scheduled(s) = {} THEN NoT ELSE MinT({s.tab[x].t : x \in Scheduled(s)})
\* an unreadable record nobody read so far may still be announced
NextOk(s, t) == t = NextT(s) \/ (t # NoT /\ t \in {s.bro[x] : x \in DOMAIN s.bro} /\ (NextT(s) = NoT \/ t <= NextT(s)))

Once(ids) == \A a, b \in DOMAIN ids : ids[a] = ids[b] => a = b
\* scheduled ones by run time, then the paused ones
Ordered(s, ids) == \A a, b \in DOMAIN ids : a < b =>
  LET ta == s.tab[ids[a]].t tb == s.tab[ids[b]].t IN tb = NoT \/ (ta # NoT /\ ta <= tb)
ListOk(s, ids) == RangeOf(ids) = DOMAIN s.tab /\ Once(ids) /\ Ordered(s, ids)
DueOk(s, now, ids) == RangeOf(ids) = DueIds(s, now) /\ Once(ids) /\ Ordered(s, ids)
=============================================================================
