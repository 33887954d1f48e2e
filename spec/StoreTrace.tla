----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Checks what real stores answered against Store.                         *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, st, cfg, hurt, moved, skip, bad
vars == <<i, st, cfg, hurt, moved, skip, bad>>

\* hurt: there was an unreadable record in this history; moved: read after a restart or by another process
V(cl, d, content) == [cl |-> cl, d |-> ToString(d), content |-> content]
If(b, v) == IF b THEN <<v>> ELSE <<>>
Props(v) ==
  IF hurt THEN <<"D02">>
  ELSE IF v.cl = "leak" THEN <<"D02">>
  ELSE IF v.content \/ moved THEN <<"D01", "D02">> ELSE <<"D01">>

Differ(a, b) == {k \in DOMAIN a : k \notin DOMAIN b \/ a[k] # b[k]}
\* the tasks of an answer are the versions written last
Content(e) ==
  LET odd == {k \in DOMAIN e.res : e.res[k].id \in DOMAIN st.tab /\ st.tab[e.res[k].id].v # e.res[k].v}
  IN If(odd # {}, V("content", {<<e.res[k].id, Differ(st.tab[e.res[k].id].v, e.res[k].v)>> : k \in odd}, TRUE))
Ids(e) == [k \in DOMAIN e.res |-> e.res[k].id]

Refused(e) == e.r = "refused" /\ e.id \in RangeOf(cfg.forbid)
Write(e, outs) ==
  IF Refused(e) \/ \E o \in outs : o[1] = e.r THEN <<>>
  ELSE <<V(e.op, <<e.id, e.r, {o[1] : o \in outs}>>, FALSE)>>
AfterWrite(e, outs) == LET os == {o \in outs : o[1] = e.r} IN IF os = {} THEN st ELSE (CHOOSE o \in os : TRUE)[2]

Outs(e) == CASE e.op = "add" -> Adds(st, e.id, e.v, e.t)
             [] e.op = "update" -> Updates(st, e.id, e.v, e.t)
             [] e.op = "delete" -> Deletes(st, e.id)

Bad(e) ==
  CASE e.op \in {"add", "update", "delete"} -> Write(e, Outs(e))
    [] e.op = "lookup" ->
         IF Refused(e) THEN <<>>
         ELSE IF e.r # "ok" THEN <<V("lookup", <<e.id, e.r>>, FALSE)>>
         ELSE IF (e.id \in DOMAIN st.tab) # (Len(e.res) = 1) \/ \E k \in DOMAIN e.res : e.res[k].id # e.id
              THEN <<V("lookup", <<e.id, Ids(e)>>, FALSE)>> ELSE Content(e)
    [] e.op = "list" ->
         IF e.r # "ok" THEN <<V("list", e.r, FALSE)>>
         ELSE If(~(RangeOf(Ids(e)) = DOMAIN st.tab /\ Once(Ids(e))), V("list", <<Ids(e), DOMAIN st.tab>>, FALSE))
              \o If(RangeOf(Ids(e)) \subseteq DOMAIN st.tab /\ ~Ordered(st, Ids(e)), V("list-order", Ids(e), FALSE))
              \o Content(e)
    [] e.op = "due" ->
         IF e.r # "ok" THEN <<V("due", e.r, FALSE)>>
         ELSE If(~(RangeOf(Ids(e)) = DueIds(st, e.now) /\ Once(Ids(e))), V("due", <<e.now, Ids(e), DueIds(st, e.now)>>, FALSE))
              \o If(RangeOf(Ids(e)) \subseteq DOMAIN st.tab /\ ~Ordered(st, Ids(e)), V("due-order", Ids(e), FALSE))
              \o Content(e)
    [] e.op = "next" ->
         If(e.r # "ok" \/ ~NextOk(st, e.t), V("next", <<e.r, e.t, NextT(st)>>, FALSE))
    [] e.op \in {"clear", "open", "close"} -> If(e.r # "ok", V(e.op, e.r, FALSE))
    [] e.op = "bytes" -> If(e.leak # <<>>, V("leak", e.leak, FALSE))
    [] OTHER -> <<>>

After(e) ==
  CASE e.op \in {"add", "update", "delete"} -> IF Refused(e) THEN st ELSE AfterWrite(e, Outs(e))
    [] e.op = "lookup" -> Read(st, {e.id})
    [] e.op = "list" -> Read(st, DOMAIN st.bro)
    [] e.op = "due" -> Read(st, DueBroken(st, e.now))
    [] e.op = "clear" -> Clear(st)
    [] e.op = "open" -> IF e.keep THEN st ELSE Fresh
    [] e.op = "break" -> Break(st, e.id, e.t)
    [] e.op = "legacy" -> [tab |-> Put(st.tab, e.id, [v |-> e.v, t |-> e.t]), bro |-> Drop(st.bro, {e.id})]
    [] e.op = "rekey" -> BreakAll(st)
    [] OTHER -> st

Report(bs, e) == \A k \in 1..Len(bs) :
  PrintT("BAD " \o ToJson([n |-> i, seg |-> e.seg, cl |-> bs[k].cl, props |-> Props(bs[k]), d |-> bs[k].d]))

Init == i = 1 /\ st = Fresh /\ cfg = <<>> /\ hurt = FALSE /\ moved = FALSE /\ skip = FALSE /\ bad = 0
Step ==
  LET e == Log[i] IN
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ IF e.op = "new"
     THEN st' = Fresh /\ cfg' = e /\ hurt' = FALSE /\ moved' = FALSE /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED <<st, cfg, hurt, moved, skip, bad>>
     ELSE LET b == Bad(e) IN
          /\ Report(b, e)
          /\ bad' = bad + Len(b)
          /\ skip' = (b # <<>>)
          /\ st' = After(e)
          /\ hurt' = (hurt \/ e.op \in {"break", "rekey"})
          /\ moved' = (moved \/ e.op \in {"open", "legacy"} \/ (e.op # "open" /\ e.far))
          /\ cfg' = cfg
Done == i = Len(Log) + 1 /\ PrintT("DONE " \o ToString(bad)) /\ i' = i + 1 /\ UNCHANGED <<st, cfg, hurt, moved, skip, bad>>
Next_ == Step \/ Done
=============================================================================
