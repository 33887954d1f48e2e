-------------------------------- MODULE Trig --------------------------------
(***************************************************************************)
(* What the triggers mean: which points in time they yield.  A trigger is  *)
(* a record; [k |-> "date", at], [k |-> "interval", st, step, en, jit],    *)
(* [k |-> "cron", f, st, en, zone, jit], [k |-> "and" / "or", ts, jit].    *)
(* An absent value is <<>>; st, en, at are <<"t", point in time>> or        *)
(* <<"w", wall clock time>> (naive).                                       *)
(***************************************************************************)
EXTENDS Cal, FiniteSets

CONSTANT ZoneTable
NoT == <<>>
Zone(name) == ZoneTable[name]
MinN(S) == CHOOSE x \in S : \A y \in S : x <= y

---------------------------------------------------------------------------
(* cron *)
Names == <<"year", "month", "day", "week", "day_of_week", "hour", "minute", "second">>
Lowest == [year |-> 1970, month |-> 1, day |-> 1, week |-> 1, day_of_week |-> 0, hour |-> 0, minute |-> 0, second |-> 0]
Highest == [year |-> 9999, month |-> 12, day |-> 31, week |-> 53, day_of_week |-> 6, hour |-> 23, minute |-> 59, second |-> 59]
AnyExpr == <<[k |-> "all", a |-> 0, b |-> 0, step |-> 1]>>
OneExpr(v) == <<[k |-> "rng", a |-> v, b |-> v, step |-> 1]>>
\* Fields that are left out: every value, but the lowest one behind the last field that is given.
\* The week and the day of the week have no lowest one.
Complete(given) ==
  LET last == {i \in 1..8 : Names[i] \in DOMAIN given} IN
  [n \in {Names[i] : i \in 1..8} |->
     IF n \in DOMAIN given THEN given[n]
     ELSE IF n \in {"year", "week", "day_of_week"} THEN AnyExpr
     ELSE IF last # {} /\ \E i \in 1..8 : Names[i] = n /\ (\A j \in last : j < i) THEN OneExpr(Lowest[n])
     ELSE AnyExpr]

Fits(e, n, v) ==
  CASE e.k = "all" -> e.step = 1 \/ (v - Lowest[n]) % e.step = 0
    [] e.k = "rng" -> v >= e.a /\ v <= e.b /\ (v - e.a) % e.step = 0
    [] OTHER -> FALSE
FitsAny(es, n, v) == \E i \in DOMAIN es : Fits(es[i], n, v)
\* also "last" and "3rd fri" (a: 0..4, 5 is the last one; b: the day of the week)
FitsDay(es, y, m, d, n) ==
  \E i \in DOMAIN es :
    CASE es[i].k = "last" -> d = Dim(y, m)
      [] es[i].k = "pos" -> /\ IF es[i].a = 5 THEN d + 7 > Dim(y, m) ELSE (d - 1) \div 7 = es[i].a
                            /\ Weekday(n) = es[i].b
      [] OTHER -> Fits(es[i], "day", d)
\* n: the number of the day d of the month m
DayFitsN(f, y, m, d, n) ==
  /\ FitsDay(f.day, y, m, d, n) /\ FitsAny(f.day_of_week, "day_of_week", Weekday(n)) /\ FitsAny(f.week, "week", IsoWeek(n))
DayFits(f, y, m, d) == DayFitsN(f, y, m, d, DayNum(y, m, d))
WallFits(f, w) ==
  LET c == Civil(w[1]) IN
  /\ w[3] = 0 /\ FitsAny(f.year, "year", c[1]) /\ FitsAny(f.month, "month", c[2]) /\ DayFits(f, c[1], c[2], c[3])
  /\ FitsAny(f.hour, "hour", w[2] \div 3600) /\ FitsAny(f.minute, "minute", (w[2] \div 60) % 60)
  /\ FitsAny(f.second, "second", w[2] % 60)

Horizon == 29                                  \* years; the calendar's patterns repeat within 28 years
RECURSIVE NextDay(_, _, _, _, _)
NextDay(f, y, m, d, until) ==
  IF y > until THEN -1
  ELSE IF ~FitsAny(f.year, "year", y) THEN NextDay(f, y + 1, 1, 1, until)
  ELSE LET ds == IF FitsAny(f.month, "month", m) THEN LET n0 == DayNum(y, m, 1) - 1 IN {k \in d..Dim(y, m) : DayFitsN(f, y, m, k, n0 + k)} ELSE {} IN
       IF ds # {} THEN DayNum(y, m, MinN(ds))
       ELSE IF m = 12 THEN NextDay(f, y + 1, 1, 1, until) ELSE NextDay(f, y, m + 1, 1, until)
\* the earliest fitting second of a day, not before second s; or -1
NextSec(f, s) ==
  LET hs == {h \in 0..23 : FitsAny(f.hour, "hour", h)}
      ms == {m \in 0..59 : FitsAny(f.minute, "minute", m)}
      ss == {x \in 0..59 : FitsAny(f.second, "second", x)}
      h0 == s \div 3600  m0 == (s \div 60) % 60
      s1 == {x \in ss : x >= s % 60}
      m1 == {m \in ms : m > m0}
      h1 == {h \in hs : h > h0}
  IN IF hs = {} \/ ms = {} \/ ss = {} THEN -1
     ELSE IF h0 \in hs /\ m0 \in ms /\ s1 # {} THEN h0 * 3600 + m0 * 60 + MinN(s1)
     ELSE IF h0 \in hs /\ m1 # {} THEN h0 * 3600 + MinN(m1) * 60 + MinN(ss)
     ELSE IF h1 # {} THEN MinN(h1) * 3600 + MinN(ms) * 60 + MinN(ss)
     ELSE -1
\* the earliest fitting wall clock time not before w (whole seconds), or NoT
NextWall(f, w) ==
  LET c == Civil(w[1])
      until == c[1] + Horizon
      d1 == NextDay(f, c[1], c[2], c[3], until)
      s1 == IF d1 = w[1] THEN NextSec(f, w[2]) ELSE NextSec(f, 0)
      c2 == Civil(w[1] + 1)
      d2 == IF d1 = w[1] /\ s1 = -1 THEN NextDay(f, c2[1], c2[2], c2[3], until) ELSE d1
      s2 == IF d2 # d1 THEN NextSec(f, 0) ELSE s1
  IN IF d2 = -1 \/ s2 = -1 THEN NoT ELSE <<d2, s2, 0>>

\* what may be taken for the first fitting time not before lo: [must |-> it must not be later, may |-> alternatives]
RECURSIVE CronChoice(_, _, _, _)
CronChoice(f, z, w, lo) ==
  LET w1 == NextWall(f, w) IN
  IF w1 = NoT THEN [must |-> {}, may |-> {}]
  ELSE LET all == Instants(z, w1)
           ts == {t \in all : LeT(lo, t)}
       IN IF ts # {} THEN [must |-> ts, may |-> {}]
          ELSE LET r == CronChoice(f, z, AddS(w1, 1), lo) IN
               [r EXCEPT !.may = @ \cup (IF all = {} THEN Shifted(z, w1) ELSE {})]

---------------------------------------------------------------------------
(* A naive time is meant in the trigger's zone, else in the scheduler's. *)
Resolve(x, z) == IF x = NoT THEN NoT
                 ELSE IF x[1] = "t" THEN x[2] ELSE MinOfT(Instants(z, x[2]))
Bound(tr, name) == IF tr.zone = "" THEN Zone(name) ELSE Zone(tr.zone)
PastEnd(t, en) == en # NoT /\ LtT(en, t)
LoCron(tr, z, lo) == LET st == Resolve(tr.st, z) IN CeilS(IF st # NoT /\ LtT(lo, st) THEN st ELSE lo)

\* the earliest time not before lo at which the trigger fires, or NoT; 0 if this is not decided here
RECURSIVE FromF(_, _, _, _), Common(_, _, _, _, _)
FromF(tr, name, lo, fuel) ==
  CASE tr.k = "date" -> LET at == Resolve(tr.at, Bound(tr, name)) IN IF LtT(at, lo) THEN NoT ELSE at
    [] tr.k = "interval" ->
         LET z == Bound(tr, name)
             st == Resolve(tr.st, z)
             x == IF LeT(lo, st) THEN st
                  ELSE LET d == SubT(lo, st)
                           m == Multiple(d, tr.step)
                       IN IF m = d THEN lo ELSE AddT(st, AddT(m, tr.step))
         IN IF PastEnd(x, Resolve(tr.en, z)) THEN NoT ELSE x
    [] tr.k = "cron" ->
         LET z == Bound(tr, name)
             l == LoCron(tr, z, lo)
             c == CronChoice(Complete(tr.f), z, WallT(z, l), l)
         IN IF c.must = {} THEN NoT
            ELSE LET x == MinOfT(c.must) IN IF PastEnd(x, Resolve(tr.en, z)) THEN NoT ELSE x
    [] tr.k = "or" ->
         LET xs == {FromF(tr.ts[i], name, lo, fuel) : i \in DOMAIN tr.ts} \ {NoT}
         IN IF xs = {} THEN NoT ELSE MinOfT(xs)
    [] tr.k = "and" -> Common(tr, name, lo, fuel, fuel \div 6)
Common(tr, name, lo, fuel, inner) ==
  IF fuel = 0 THEN <<0, 0, 0>>
  ELSE LET xs == {FromF(tr.ts[i], name, lo, inner) : i \in DOMAIN tr.ts} IN
       IF NoT \in xs THEN NoT
       ELSE IF Cardinality(xs) = 1 THEN MinOfT(xs)
       ELSE Common(tr, name, MaxOfT(xs), fuel - 1, inner)
Fuel == 90
From(tr, name, lo) == FromF(tr, name, lo, Fuel)
Undecided(x) == x = <<0, 0, 0>>

\* the first time of a trigger that is asked afresh at now
RECURSIVE First(_, _, _)
First(tr, name, now) ==
  CASE tr.k = "date" -> Resolve(tr.at, Bound(tr, name))
    [] tr.k = "or" -> LET xs == {First(tr.ts[i], name, now) : i \in DOMAIN tr.ts} \ {NoT}
                      IN IF xs = {} THEN NoT ELSE MinOfT(xs)
    [] OTHER -> From(tr, name, now)
\* the next one, without jitter
Ideal(tr, name, prev, now) ==
  CASE prev = NoT -> First(tr, name, now)
    [] prev # NoT /\ tr.k = "date" -> NoT
    [] prev # NoT /\ tr.k = "interval" ->
         LET x == AddT(prev, tr.step) IN IF PastEnd(x, Resolve(tr.en, Bound(tr, name))) THEN NoT ELSE x
    [] OTHER -> From(tr, name, AddT(prev, Tick))
=============================================================================
