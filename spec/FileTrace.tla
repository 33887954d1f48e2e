----------------------------- MODULE FileTrace ------------------------------
(***************************************************************************)
(* Histories of several processes on one file store, some killed: each     *)
(* operation took effect at one instant between its call and its return.   *)
(***************************************************************************)
EXTENDS Lin, Sequences, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, cs, ops, tt, skip, bad
vars == <<i, cs, ops, tt, skip, bad>>

RangeOf(s) == {s[k] : k \in DOMAIN s}
Whole(o) == o.op \in {"list", "due", "clear"}
Of(o) == IF Whole(o) THEN DOMAIN cs ELSE {o.id}
\* versions of which the run time is later than asked (9: paused)
Late(e) == IF e.op = "due" THEN {v \in DOMAIN tt : tt[v] > e.now} ELSE {}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* the answer for one id
Answer(e, o, id) == IF o.op \in {"list", "due"} THEN (IF \E k \in DOMAIN e.res : e.res[k].id = id
                                        THEN (LET k == CHOOSE k \in DOMAIN e.res : e.res[k].id = id IN e.res[k].v) ELSE "none")
                    ELSE e.r
After(e) == LET o == ops[e.p] IN [id \in DOMAIN cs |-> IF id \in Of(o) THEN Return(cs[id], e.p, ops, Answer(e, o, id)) ELSE cs[id]]

Bad(e) ==
  IF e.op # "ret" THEN <<>>
  ELSE LET o == ops[e.p] a == After(e) wrong == {id \in DOMAIN a : a[id] = {}} IN
    IF Whole(o) /\ e.r # "ok" THEN <<[cl |-> o.op, d |-> ToString(<<"error", e.r>>)]>>
    ELSE IF wrong # {}
         THEN <<[cl |-> o.op, d |-> ToString([id \in wrong |-> <<Answer(e, o, id), {<<c.x, c.d[e.p]>> : c \in Closed(cs[id], ops)}>>])]>>
    ELSE IF o.op \in {"list", "due"} /\ \E k \in DOMAIN e.res : e.res[k].id \notin DOMAIN cs
         THEN <<[cl |-> o.op, d |-> ToString(<<"unknown", e.res>>)]>>
    ELSE IF o.op \in {"list", "due"} /\ \E k, l \in DOMAIN e.res : k < l /\ (e.res[k].id = e.res[l].id \/ e.res[k].t > e.res[l].t)
         THEN <<[cl |-> "order", d |-> ToString(e.res)]>>
    ELSE <<>>

Report(bs, e) == \A k \in 1..Len(bs) :
  PrintT("BAD " \o ToJson([n |-> i, seg |-> e.seg, cl |-> bs[k].cl, props |-> <<"D03">>, d |-> bs[k].d]))

Init == i = 1 /\ cs = <<>> /\ ops = <<>> /\ tt = <<>> /\ skip = FALSE /\ bad = 0
Step ==
  LET e == Log[i] IN
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ IF e.op = "new"
     THEN /\ cs' = [id \in DOMAIN e.init |-> Start(e.init[id], RangeOf(e.procs))]
          /\ ops' = [p \in RangeOf(e.procs) |-> [op |-> "idle"]]
          /\ tt' = e.times
          /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED <<cs, ops, tt, skip, bad>>
     ELSE IF e.op = "hang"
     THEN /\ Report(<<[cl |-> "hang", d |-> ToString(e.d)]>>, e)
          /\ bad' = bad + 1 /\ skip' = TRUE /\ UNCHANGED <<cs, ops, tt>>
     ELSE LET b == Bad(e) IN
          /\ Report(b, e)
          /\ bad' = bad + Len(b)
          /\ skip' = (b # <<>>)
          /\ tt' = tt
          /\ IF e.op = "call"
             THEN LET o == [e.o EXCEPT !.op = @] @@ [late |-> Late(e.o)] IN
                  /\ ops' = [ops EXCEPT ![e.p] = o]
                  /\ cs' = [id \in DOMAIN cs |-> IF id \in Of(o) THEN Call(cs[id], e.p) ELSE cs[id]]
             ELSE IF e.op = "ret" THEN cs' = (IF b # <<>> THEN cs ELSE After(e)) /\ ops' = ops
             ELSE /\ cs' = [id \in DOMAIN cs |-> Death(cs[id], e.p, ops)] /\ ops' = ops
Done == i = Len(Log) + 1 /\ PrintT("DONE " \o ToString(bad)) /\ i' = i + 1 /\ UNCHANGED <<cs, ops, tt, skip, bad>>
Next_ == Step \/ Done
=============================================================================
