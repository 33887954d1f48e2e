----------------------------- MODULE GateTrace ------------------------------
EXTENDS Gate, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, c, sess, bad
vars == <<i, c, sess, bad>>

\* a cookie of somebody else's making, or none, stands for nothing
Has(e) == e.cookie = "jar" /\ sess[e.who]
Report(bs, e) == \A b \in bs : PrintT("BAD " \o ToJson([n |-> i, seg |-> e.seg, cl |-> b, props |-> <<"H03">>, d |-> ToString([conf |-> c, sess |-> sess, event |-> e])]))
Init == i = 1 /\ c = [root |-> "", base |-> "", fwd |-> ""] /\ sess = <<FALSE, FALSE>> /\ bad = 0
Step ==
  LET e == Log[i] IN
  /\ i <= Len(Log) /\ i' = i + 1
  /\ IF e.op = "new" THEN c' = [root |-> e.root, base |-> e.base, fwd |-> e.fwd] /\ sess' = <<FALSE, FALSE>> /\ bad' = bad
     ELSE LET bs == Bad(c, Has(e), e) IN
          /\ Report(bs, e) /\ bad' = bad + Cardinality(bs) /\ c' = c
          /\ sess' = IF e.cookie = "jar" THEN [sess EXCEPT ![e.who] = After(c, sess[e.who], e)] ELSE sess
Done == i = Len(Log) + 1 /\ PrintT("DONE " \o ToString(bad)) /\ i' = i + 1 /\ UNCHANGED <<c, sess, bad>>
Next_ == Step \/ Done
=============================================================================
