-------------------------------- MODULE Gate --------------------------------
(***************************************************************************)
(* The login of the dashboard.  c: root (where the host mounts it), base   *)
(* (its own prefix there, "" if none), fwd (prefix a proxy takes away).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Begins(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q
Rest(p, n) == SubSeq(p, n + 1, Len(p))
Below(p, q) == p = q \/ Begins(p, q \o "/")

Task == "sekret-task"
Pages == {"/", "/tasks/", "/tasks/partials/table", "/tasks/" \o Task, "/tasks/" \o Task \o "/edit", "/logs/",
          "/logs/partials/table", "/history/", "/history/partials/table", "/events/", "/timeline/", "/instances/", "/runtime/", "/audit/"}
Actions == {"/tasks/create", "/tasks/" \o Task \o "/edit", "/tasks/hx/bulk/pause", "/tasks/hx/bulk/resume", "/tasks/hx/bulk/remove",
            "/tasks/hx/bulk/run", "/tasks/" \o Task \o "/run", "/tasks/" \o Task \o "/pause", "/tasks/" \o Task \o "/resume",
            "/tasks/" \o Task \o "/remove"}
Known(method, page) == (method = "GET" /\ page \in Pages) \/ (method = "POST" /\ page \in Actions)

\* whether the request gets to the dashboard's application at all, and the path there
Inside(c, p) == c.root = "" \/ Begins(p, c.root \o "/")
Own(c, p) == Rest(p, Len(c.root))
\* what is open to everybody
OpenPaths(c) == {"/login", "/logout", "/static", "/assets"} \cup (IF c.base = "" THEN {} ELSE {c.base \o "/static", c.base \o "/assets"})
Open(c, p) == \E o \in OpenPaths(c) : Below(Own(c, p), o)
\* the page of the dashboard that a path names, "" if it is none
Page(c, p) == LET q == Own(c, p) IN
  IF ~Inside(c, p) THEN "" ELSE IF c.base = "" THEN q ELSE IF Begins(q, c.base \o "/") THEN Rest(q, Len(c.base)) ELSE ""
LoginUrl(c) == c.fwd \o c.root \o "/login"
IndexUrl(c) == c.fwd \o c.root \o c.base \o "/"
IsLogin(c, p) == Inside(c, p) /\ Own(c, p) = "/login"
IsLogout(c, p) == Inside(c, p) /\ Own(c, p) = "/logout"

\* what a request e gets from a dashboard on which its cookie stands for a session (sess) or not: the clauses it breaks
To(e, url) == e.loc = url
Bad(c, sess, e) ==
  LET p == e.path IN
  (IF ~sess /\ (e.reached \/ e.secret) THEN {"reached"} ELSE {}) \cup
  (IF ~sess /\ e.changed THEN {"changed"} ELSE {}) \cup
  (IF e.status = 500 /\ ~Open(c, p) THEN {"error"} ELSE {}) \cup
  (IF ~Inside(c, p) \/ e.preflight THEN {}
   ELSE IF IsLogin(c, p) /\ e.method = "GET" THEN (IF e.status # 200 THEN {"login"} ELSE {})
   ELSE IF IsLogin(c, p) /\ e.method = "POST" THEN
     (IF e.right THEN (IF e.status # 303 \/ ~To(e, IF e.next # "" THEN e.next ELSE IndexUrl(c)) THEN {"login"} ELSE {})
      ELSE IF e.status # 200 THEN {"login"} ELSE {})
   ELSE IF IsLogout(c, p) /\ e.method \in {"GET", "POST"} THEN (IF e.status # 303 \/ ~To(e, LoginUrl(c)) THEN {"logout"} ELSE {})
   ELSE IF Open(c, p) THEN {}
   ELSE IF ~sess THEN
     (IF e.htmx THEN (IF e.status # 401 \/ e.hx # LoginUrl(c) \/ e.hxnext # c.fwd \o p THEN {"turned"} ELSE {})
      ELSE IF e.status # 303 \/ ~To(e, LoginUrl(c)) \/ e.next # c.fwd \o p THEN {"turned"} ELSE {})
   ELSE IF Known(e.method, Page(c, p)) THEN
     (IF ~e.reached \/ e.status \in {401, 403, 405} \/ e.loc = LoginUrl(c) THEN {"denied"} ELSE {})
   ELSE (IF e.status = 401 \/ e.loc = LoginUrl(c) THEN {"denied"} ELSE {}))
\* whether the client has a session afterwards
After(c, sess, e) ==
  IF e.preflight \/ ~Inside(c, e.path) THEN sess
  ELSE IF IsLogin(c, e.path) /\ e.method = "POST" /\ e.right THEN TRUE
  ELSE IF IsLogout(c, e.path) /\ e.method \in {"GET", "POST"} THEN FALSE
  ELSE sess
=============================================================================
