----------------------------- MODULE HistTrace ------------------------------
EXTENDS Hist, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, ss, max, low, skip, bad
vars == <<i, ss, max, low, skip, bad>>

After(e) ==
  CASE e.op = "par" -> UNION {Runs(s, max, low, Parts(e.a), Parts(e.b)) : s \in ss}
    [] e.op = "dump" -> {s \in ss : Len(e.res) = Len(s) /\ {e.res[x] : x \in DOMAIN e.res} = {s[x] : x \in DOMAIN s}
                                    /\ Cardinality({e.ids[x] : x \in DOMAIN e.ids}) = Len(s)}
    [] OTHER -> UNION {Runs(s, max, low, Parts(e), <<>>) : s \in ss}

Report(e) == PrintT("BAD " \o ToJson([n |-> i, seg |-> e.seg, cl |-> e.op, props |-> <<"H01">>, d |-> ToString([event |-> e, states |-> ss])]))

Init == i = 1 /\ ss = {<<>>} /\ max = 0 /\ low = <<>> /\ skip = FALSE /\ bad = 0
Step ==
  LET e == Log[i] IN
  /\ i <= Len(Log) /\ i' = i + 1
  /\ IF e.op = "new" THEN ss' = {<<>>} /\ max' = e.max /\ low' = e.low /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED <<ss, max, low, skip, bad>>
     ELSE LET t == IF e.op = "err" THEN {} ELSE After(e) IN
          /\ UNCHANGED <<max, low>>
          /\ IF t = {} THEN Report(e) /\ skip' = TRUE /\ bad' = bad + 1 /\ ss' = ss
             ELSE ss' = t /\ UNCHANGED <<skip, bad>>
Done == i = Len(Log) + 1 /\ PrintT("DONE " \o ToString(bad)) /\ i' = i + 1 /\ UNCHANGED <<ss, max, low, skip, bad>>
Next_ == Step \/ Done
=============================================================================
