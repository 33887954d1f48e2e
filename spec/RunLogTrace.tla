---------------------------- MODULE RunLogTrace -----------------------------
(* The log of runs as the real history and log storage keep it. *)
EXTENDS RunLog, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, L, hmax, lmax, skip, bad
vars == <<i, s, L, hmax, lmax, skip, bad>>

Ok(e) ==
  CASE e.op = "logs" -> At(s, e.run) # {} /\ e.res = LogOf(Rec(s, e.run), L, e.limit)
    [] e.op = "all" -> e.res = Back(L)
    [] e.op = "err" -> FALSE
    [] OTHER -> TRUE
Report(e) == PrintT("BAD " \o ToJson([n |-> i, seg |-> e.seg, cl |-> e.op, props |-> <<"H06">>,
                    d |-> ToString([event |-> e, want |-> IF e.op = "logs" /\ At(s, e.run) # {} THEN LogOf(Rec(s, e.run), L, e.limit) ELSE Back(L), records |-> s])]))
Init == i = 1 /\ s = <<>> /\ L = <<>> /\ hmax = 0 /\ lmax = 0 /\ skip = FALSE /\ bad = 0
Step ==
  LET e == Log[i] IN
  /\ i <= Len(Log) /\ i' = i + 1
  /\ IF e.op = "new" THEN s' = <<>> /\ L' = <<>> /\ hmax' = e.max /\ lmax' = e.lmax /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED <<s, L, hmax, lmax, skip, bad>>
     ELSE IF ~Ok(e) THEN Report(e) /\ skip' = TRUE /\ bad' = bad + 1 /\ UNCHANGED <<s, L, hmax, lmax>>
     ELSE /\ UNCHANGED <<hmax, lmax, skip, bad>>
          /\ IF e.op \in {"sub", "exe"} THEN LET t == Told(s, L, hmax, lmax, Parts(e)) IN s' = t.s /\ L' = t.L
             ELSE s' = s /\ L' = IF e.op = "line" THEN Newest(Append(L, e.line), lmax) ELSE IF e.op = "wipe" THEN <<>> ELSE L
Done == i = Len(Log) + 1 /\ PrintT("DONE " \o ToString(bad)) /\ i' = i + 1 /\ UNCHANGED <<s, L, hmax, lmax, skip, bad>>
Next_ == Step \/ Done
=============================================================================
