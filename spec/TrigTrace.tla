----------------------------- MODULE TrigTrace ------------------------------
(***************************************************************************)
(* Checks answers recorded from the real triggers against Trig.            *)
(***************************************************************************)
EXTENDS Trig, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)
Zones == Log[1].zones

VARIABLES i, tr, bad
vars == <<i, tr, bad>>

Prop(t) == CASE t.k \in {"date", "interval"} -> "T01" [] t.k = "cron" -> "T02" [] OTHER -> "T03"
V(cl, d) == [cl |-> cl, d |-> ToString(d)]
If(b, v) == IF b THEN <<v>> ELSE <<>>
Late(t, jit) == IF jit = NoT THEN t ELSE AddT(t, jit)

\* an "or" whose parts are delayed: the earliest and the latest possible answer
OrSpan(e) ==
  LET xs == {<<Ideal(tr.ts[k], e.tz, NoT, IF e.prev = NoT THEN e.now ELSE AddT(e.prev, Tick)), tr.ts[k].jit>> : k \in DOMAIN tr.ts}
  IN <<MinOfT({x[1] : x \in xs}), Late(MinOfT({Late(x[1], x[2]) : x \in xs}), tr.jit)>>

CronBad(e) ==
  LET z == Bound(tr, e.tz)
      lo == IF e.prev = NoT THEN e.now ELSE AddT(e.prev, Tick)
      l == LoCron(tr, z, lo)
      f == Complete(tr.f)
      c == CronChoice(f, z, WallT(z, l), l)
      en == Resolve(tr.en, z)
      \* also the second pass of wall clock times that occur twice
      again == IF e.res # NoT /\ tr.jit = NoT /\ WallFits(f, WallT(z, e.res)) THEN {e.res} ELSE {}
      ok == {t \in c.must \cup c.may \cup again : LeT(l, t) /\ (c.must = {} \/ LeT(t, MaxOfT(c.must))) /\ ~PastEnd(t, en)}
      far == c.must = {}
  IN IF e.res = NoT
     THEN If(~far /\ \E t \in c.must : ~PastEnd(t, en) /\ \A x \in c.must : ~PastEnd(x, en), V("missing", <<c.must>>))
     ELSE IF far /\ again # {} THEN <<>>
     ELSE If(\A b \in ok : LtT(e.res, b) \/ LtT(Late(b, tr.jit), e.res), V("time", <<e.res, c>>))
          \o If(PastEnd(e.res, en), V("end", <<e.res, en>>))

PlainBad(e) ==
  LET x == Ideal(tr, e.tz, e.prev, e.now)
      en == IF tr.k = "interval" THEN Resolve(tr.en, Bound(tr, e.tz)) ELSE NoT
      hi == Late(x, tr.jit)
  IN IF x # NoT /\ Undecided(x) THEN <<>>
     ELSE IF e.res = NoT THEN If(x # NoT /\ ~PastEnd(hi, en), V("missing", x))
     ELSE If(x = NoT, V("extra", e.res))
          \o If(x # NoT /\ LtT(e.res, x), V("early", <<e.res, x>>))
          \o If(x # NoT /\ LtT(hi, e.res), V("late", <<e.res, x>>))
          \o If(PastEnd(e.res, en), V("end", <<e.res, en>>))

DelayedBad(e) ==
  LET s == OrSpan(e) IN
  IF e.res = NoT THEN <<V("missing", s)>>
  ELSE If(LtT(e.res, s[1]), V("early", <<e.res, s>>)) \o If(LtT(s[2], e.res), V("late", <<e.res, s>>))

Bad(e) ==
  IF e.err = "slow" /\ tr.k # "cron" THEN
    LET x == Ideal(tr, e.tz, e.prev, e.now) IN
    If(tr.k = "and" /\ (\A k \in DOMAIN tr.ts : tr.ts[k].k \notin {"and", "or"}) /\ ~tr.delayed /\ x # NoT /\ ~Undecided(x), V("error", <<"no answer", x>>))
  ELSE IF e.err = "slow" THEN
    LET z == Bound(tr, e.tz)
        l == LoCron(tr, z, IF e.prev = NoT THEN e.now ELSE AddT(e.prev, Tick))
    IN If(CronChoice(Complete(tr.f), z, WallT(z, l), l).must # {}, V("error", "no answer"))
  ELSE IF e.err # "" THEN <<V("error", e.err)>>
  ELSE (IF tr.k = "cron" THEN CronBad(e) ELSE IF tr.delayed THEN DelayedBad(e) ELSE PlainBad(e))
       \* the answer is a proper time of some zone: its wall clock time is meant by its offset
       \o (IF e.res # NoT /\ e.rz # "" THEN If(OffsetAt(Zone(e.rz), e.res) # e.off, V("offset", <<e.rz, e.off>>)) ELSE <<>>)

Report(bs, e) == \A k \in 1..Len(bs) :
  PrintT("BAD " \o ToJson([n |-> i, seg |-> e.seg, cl |-> (IF e.re THEN "restored:" ELSE "") \o bs[k].cl,
                           prop |-> Prop(tr), d |-> bs[k].d]))

Init == i = 2 /\ tr = <<>> /\ bad = 0
Step ==
  LET e == Log[i] IN
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ IF e.op = "trig" THEN tr' = e.t /\ bad' = bad
     ELSE LET b == Bad(e) IN Report(b, e) /\ bad' = bad + Len(b) /\ tr' = tr
Done == i = Len(Log) + 1 /\ PrintT("DONE " \o ToString(bad)) /\ i' = i + 1 /\ UNCHANGED <<tr, bad>>
Next_ == Step \/ Done
=============================================================================
