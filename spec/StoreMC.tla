------------------------------ MODULE StoreMC -------------------------------
(***************************************************************************)
(* Bounded model of a store: every write in every reachable table, with    *)
(* unreadable records and restarts in between.  Every transition is printed *)
(* with a history that leads to it, to be replayed on the real stores.     *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils, TLC

Ids == {"a", "b", "c"}
Times == {NoT, 2, 4}
MaxLen == atoi(IOEnv.LEN)

VARIABLES st, n, h
vars == <<st, n, h>>
\* versions do not matter for what is possible
View == <<[x \in DOMAIN st.tab |-> st.tab[x].t], st.bro, n>>

Do(op, id, t, s) == st' = s /\ n' = n + 1 /\ h' = Append(h, [op |-> op, id |-> id, t |-> t])
Step ==
  /\ n < MaxLen
  /\ \/ \E id \in Ids, t \in Times : \E o \in Adds(st, id, n + 1, t) : Do("add", id, t, o[2])
     \/ \E id \in Ids, t \in Times : \E o \in Updates(st, id, n + 1, t) : Do("update", id, t, o[2])
     \/ \E id \in Ids : \E o \in Deletes(st, id) : Do("delete", id, NoT, o[2])
     \/ \E id \in DOMAIN st.tab : Do("break", id, NoT, Break(st, id, st.tab[id].t))
     \/ \E id \in Ids : Do("lookup", id, NoT, Read(st, {id}))
     \/ \E t \in {1, 2, 3} : Do("due", "a", t, Read(st, DueBroken(st, t)))
     \/ Do("list", "a", NoT, Read(st, DOMAIN st.bro))
     \/ Do("clear", "a", NoT, Clear(st))
     \/ Do("open", "a", NoT, st)
Init == st = Fresh /\ n = 0 /\ h = <<>>
Emit == h' = h \/ PrintT("SCRIPT " \o ToJson(h'))

(* the table is what the property says *)
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A x, y \in DOMAIN p : p[x] = p[y] => x = y}
Lists == {p \in Perms(DOMAIN st.tab) : ListOk(st, p)}
Apart == DOMAIN st.tab \cap DOMAIN st.bro = {}
\* there is a right listing, the due tasks are its beginning and the next run time is that of its head
DuePrefix == Lists # {} /\ \A p \in Lists : \A now \in 0..5 :
  LET k == Cardinality(DueIds(st, now)) IN DueOk(st, now, SubSeq(p, 1, k))
NextHead == \A p \in Lists : NextT(st) = IF p = <<>> THEN NoT ELSE st.tab[p[1]].t
\* what one step does not name stays as it is
Frame == [][\A x \in Ids : (x # h'[Len(h')].id /\ h'[Len(h')].op # "clear") =>
             /\ (x \in DOMAIN st.tab <=> x \in DOMAIN st'.tab)
             /\ (x \in DOMAIN st.tab => st.tab[x] = st'.tab[x])]_vars
=============================================================================
