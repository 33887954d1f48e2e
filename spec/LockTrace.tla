----------------------------- MODULE LockTrace ------------------------------
(***************************************************************************)
(* Histories of several processes that use one lock file.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, act, inside, over, skip, bad
vars == <<i, act, inside, over, skip, bad>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Bad(e) ==
  CASE e.op = "in" -> IF e.locked THEN (IF inside \ {e.p} # {} THEN <<[cl |-> "exclusion", d |-> ToString(<<e.p, inside>>)]>> ELSE <<>>)
                      ELSE IF over[e.p] = {} THEN <<[cl |-> "free", d |-> "turned away although nobody else was there"]>> ELSE <<>>
    [] e.op = "nested" -> IF e.locked THEN <<[cl |-> "nested", d |-> "taken twice"]>> ELSE <<>>
    [] e.op = "ret" -> IF e.r # "ok" THEN <<[cl |-> "error", d |-> ToString(e.r)]>> ELSE <<>>
    [] e.op = "hang" -> <<[cl |-> "hang", d |-> ToString(e.d)]>>
    [] OTHER -> <<>>

Report(bs, e) == \A k \in 1..Len(bs) :
  PrintT("BAD " \o ToJson([n |-> i, seg |-> e.seg, cl |-> bs[k].cl, props |-> <<"D04">>, d |-> bs[k].d]))

Init == i = 1 /\ act = {} /\ inside = {} /\ over = <<>> /\ skip = FALSE /\ bad = 0
Step ==
  LET e == Log[i] IN
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ IF e.op = "new" THEN act' = {} /\ inside' = {} /\ over' = <<>> /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED <<act, inside, over, skip, bad>>
     ELSE LET b == Bad(e) IN
          /\ Report(b, e) /\ bad' = bad + Len(b) /\ skip' = (b # <<>>)
          /\ CASE e.op = "call" -> /\ act' = act \cup {e.p} /\ inside' = inside
                                   /\ over' = [q \in DOMAIN over \cup {e.p} |->
                                                IF q = e.p THEN act ELSE IF q \in act THEN over[q] \cup {e.p} ELSE over[q]]
               [] e.op = "in" /\ e.locked -> inside' = inside \cup {e.p} /\ UNCHANGED <<act, over>>
               [] e.op = "out" -> inside' = inside \ {e.p} /\ UNCHANGED <<act, over>>
               [] e.op \in {"ret", "death"} -> act' = act \ {e.p} /\ inside' = inside \ {e.p} /\ over' = over
               [] OTHER -> UNCHANGED <<act, inside, over>>
Done == i = Len(Log) + 1 /\ PrintT("DONE " \o ToString(bad)) /\ i' = i + 1 /\ UNCHANGED <<act, inside, over, skip, bad>>
Next_ == Step \/ Done
=============================================================================
