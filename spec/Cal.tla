--------------------------------- MODULE Cal ---------------------------------
(***************************************************************************)
(* Time.  A point in time (UTC, from 1970-01-01), a wall clock time and a  *)
(* span are triples <<days, seconds of the day, microseconds>>; TLC's      *)
(* integers have 32 bits.  Calendar of the proleptic Gregorian era, ISO    *)
(* weeks, and time zones as tables of transitions.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

LtT(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
LeT(a, b) == ~LtT(b, a)
NormT(d, s, u) == LET s1 == s + (u \div 1000000) IN <<d + (s1 \div 86400), s1 % 86400, u % 1000000>>
AddT(a, b) == NormT(a[1] + b[1], a[2] + b[2], a[3] + b[3])
SubT(a, b) == NormT(a[1] - b[1], a[2] - b[2], a[3] - b[3])
AddS(a, n) == NormT(a[1], a[2] + n, a[3])
Tick == <<0, 0, 1>>
CeilS(a) == IF a[3] = 0 THEN a ELSE NormT(a[1], a[2] + 1, 0)
MinOfT(S) == CHOOSE t \in S : \A x \in S : LeT(t, x)
MaxOfT(S) == CHOOSE t \in S : \A x \in S : LeT(x, t)

\* the largest multiple of the span p (> 0) that is at most the span x (>= 0)
RECURSIVE Multiple(_, _)
Multiple(x, p) ==
  IF LtT(x, p) THEN <<0, 0, 0>>
  ELSE LET m == Multiple(x, AddT(p, p)) IN IF LeT(AddT(m, p), x) THEN AddT(m, p) ELSE m

---------------------------------------------------------------------------
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Dim(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* number of the day since 1970-01-01 and back
DayNum(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
  IN era * 146097 + doe - 719468
Civil(day) ==
  LET z == day + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      d == doy - ((153 * mp + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>
Weekday(day) == (day + 3) % 7                 \* Monday is 0
IsoWeek(day) ==
  LET th == day - Weekday(day) + 3 IN ((th - DayNum(Civil(th)[1], 1, 1)) \div 7) + 1

---------------------------------------------------------------------------
\* a zone: [base |-> offset, tr |-> <<<<day, second, offset afterwards>>, ...>>], offsets in seconds
OffsetAt(z, t) ==
  LET ks == {k \in DOMAIN z.tr : LeT(<<z.tr[k][1], z.tr[k][2], 0>>, t)}
  IN IF ks = {} THEN z.base ELSE z.tr[CHOOSE k \in ks : \A j \in ks : j <= k][3]
Offsets(z) == {z.base} \cup {z.tr[k][3] : k \in DOMAIN z.tr}
WallT(z, t) == AddS(t, OffsetAt(z, t))
\* the points in time with that wall clock time: none, one or two
Instants(z, w) == {AddS(w, 0 - o) : o \in {p \in Offsets(z) : OffsetAt(z, AddS(w, 0 - p)) = p}}
\* a wall clock time that is left out, taken at the same distance after the gap
Shifted(z, w) ==
  {AddS(w, 0 - p) : p \in {q \in Offsets(z) :
     LET o == OffsetAt(z, AddS(w, 0 - q)) IN o > q /\ OffsetAt(z, AddS(w, 0 - o)) = q}}
=============================================================================
