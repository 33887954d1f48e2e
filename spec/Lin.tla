-------------------------------- MODULE Lin ---------------------------------
(***************************************************************************)
(* When do operations that overlap take effect?  One register per task id: *)
(* its value is the version (0: no task, -1: a record nobody can read).    *)
(* A configuration is a value with, for every process, "-" (idle), "?"     *)
(* (called, no effect so far) or the answer it will give.  The set of all  *)
(* configurations that fit the history so far must never become empty.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Name(v) == IF v <= 0 THEN "none" ELSE "v" \o ToString(v)

\* all <<value afterwards, answer>> of an operation; a reader may or may not drop an unreadable record
Outcomes(o, x) ==
  CASE o.op = "add" -> (IF x = 0 THEN {<<o.v, "ok">>} ELSE {<<x, "conflict">>})
                       \cup (IF x = -1 THEN {<<o.v, "ok">>} ELSE {})
    [] o.op = "update" -> (IF x > 0 THEN {<<o.v, "ok">>} ELSE {<<x, "missing">>})
                          \cup (IF x = -1 THEN {<<o.v, "ok">>} ELSE {})
    [] o.op = "delete" -> (IF x > 0 THEN {<<0, "ok">>} ELSE {<<x, "missing">>})
                          \cup (IF x = -1 THEN {<<0, "ok">>} ELSE {})
    [] o.op = "clear" -> {<<0, "ok">>}
    [] o.op \in {"lookup", "list"} -> {<<x, Name(x)>>} \cup (IF x = -1 THEN {<<0, "none">>} ELSE {})
    \* o.late: versions whose run time is not reached
    [] o.op = "due" -> {<<x, IF x \in o.late THEN "none" ELSE Name(x)>>} \cup (IF x = -1 THEN {<<0, "none">>} ELSE {})

Start(x, procs) == {[x |-> x, d |-> [p \in procs |-> "-"]]}
Call(cs, p) == {[c EXCEPT !.d[p] = "?"] : c \in cs}

Effect(c, p, ops) == {[x |-> o[1], d |-> [c.d EXCEPT ![p] = o[2]]] : o \in Outcomes(ops[p], c.x)}
RECURSIVE Close(_, _, _)
Close(cs, ops, k) ==
  IF k = 0 THEN cs
  ELSE Close(cs \cup UNION {Effect(c, p, ops) : <<c, p>> \in {<<c, p>> \in cs \X DOMAIN ops : c.d[p] = "?"}}, ops, k - 1)
Closed(cs, ops) == Close(cs, ops, Cardinality(DOMAIN ops))

Return(cs, p, ops, r) == {[c EXCEPT !.d[p] = "-"] : c \in {c \in Closed(cs, ops) : c.d[p] = r}}
\* the process died: with or without effect
Death(cs, p, ops) == {[c EXCEPT !.d[p] = "-"] : c \in Closed(cs, ops)}
=============================================================================
