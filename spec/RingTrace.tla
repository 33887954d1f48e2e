----------------------------- MODULE RingTrace ------------------------------
EXTENDS Ring, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, ss, kind, max, skip, bad
vars == <<i, ss, kind, max, skip, bad>>

After(e) == CASE e.op = "par" -> UNION {Both(kind, max, s, e.a, e.b) : s \in ss}
              [] e.op = "err" -> {}
              [] OTHER -> UNION {Run(kind, max, s, e) : s \in ss}
Report(e) == PrintT("BAD " \o ToJson([n |-> i, seg |-> e.seg, cl |-> kind \o "." \o e.op, props |-> <<"H02">>, d |-> ToString([event |-> e, states |-> ss])]))
Init == i = 1 /\ ss = {<<>>} /\ kind = "" /\ max = 0 /\ skip = FALSE /\ bad = 0
Step ==
  LET e == Log[i] IN
  /\ i <= Len(Log) /\ i' = i + 1
  /\ IF e.op = "new" THEN ss' = {<<>>} /\ max' = e.max /\ kind' = e.kind /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED <<ss, kind, max, skip, bad>>
     ELSE LET t == After(e) IN
          /\ UNCHANGED <<kind, max>>
          /\ IF t = {} THEN Report(e) /\ skip' = TRUE /\ bad' = bad + 1 /\ ss' = ss
             ELSE ss' = t /\ UNCHANGED <<skip, bad>>
Done == i = Len(Log) + 1 /\ PrintT("DONE " \o ToString(bad)) /\ i' = i + 1 /\ UNCHANGED <<ss, kind, max, skip, bad>>
Next_ == Step \/ Done
=============================================================================
