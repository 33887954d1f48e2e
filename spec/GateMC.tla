------------------------------- MODULE GateMC -------------------------------
(***************************************************************************)
(* The gate as it is built (what is taken off the path, the list of open   *)
(* paths, the session, then the routes) for every path of a few segments   *)
(* and every order of logging in and out of two clients.                   *)
(***************************************************************************)
EXTENDS Gate, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
N == atoi(IOEnv.LEN)
Segments == {"", "board", "login", "static", "tasks", "host", "boardx", "logout", "..", Task}
Confs == {[root |-> r, base |-> b, fwd |-> ""] : r \in {"", "/host", "/host/login"}, b \in {"", "/board", "/static-board", "/a/static"}}
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE "/" \o Head(s) \o Join(Tail(s))
Paths == UNION {{Join(s) : s \in [1..n -> Segments]} : n \in 1..Depth}
Few(c) == {c.root \o p : p \in {"/login", "/logout", c.base \o "/tasks/", c.base \o "/static/css/asyncz.css", c.base \o "/tasks/" \o Task \o "/run"}}

\* the middleware
Child(c, p) == LET q == IF c.root # "" /\ Begins(p, c.root) THEN Rest(p, Len(c.root)) ELSE p IN
               IF q = "" THEN "/" ELSE IF ~Begins(q, "/") THEN "/" \o q ELSE q
Passes(c, p) == \E o \in OpenPaths(c) : Below(Child(c, p), o)
\* the routes: sign-in pages first, then the dashboard
Reaches(c, p) == LET q == Own(c, p) page == Page(c, p) IN
  Inside(c, p) /\ q \notin {"/login", "/logout"} /\ page \in Pages \cup Actions

VARIABLES c, p, sess, h
vars == <<c, p, sess, h>>
Init == c \in Confs /\ p = "" /\ sess = <<FALSE, FALSE>> /\ h = <<>>
Kinds(q) == IF IsLogin(c, q) THEN {"right", "wrong"} ELSE {"go"}
Next == /\ Len(h) < N /\ c' = c
        /\ \E who \in 1..(IF N = 1 THEN 1 ELSE 2), q \in (IF N = 1 THEN {c.root \o x : x \in Paths} ELSE Few(c)) : \E k \in Kinds(q) :
             /\ p' = q
             /\ sess' = [sess EXCEPT ![who] = (@ \/ k = "right") /\ ~IsLogout(c, q)]
             /\ h' = Append(h, [who |-> who, path |-> q, kind |-> k])
Emit == Len(h') = N => PrintT("SCRIPT " \o ToJson([c |-> c, h |-> h']))
\* no page is behind an open path; the gate opens what is open and nothing else
Closed == Inside(c, p) => ~(Passes(c, p) /\ Reaches(c, p))
Same == Inside(c, p) => (Passes(c, p) <=> Open(c, p))
=============================================================================
