-------------------------------- MODULE Times --------------------------------
(* Dates of the proleptic Gregorian calendar as a machine that steps from day to *)
(* day, and the number of milliseconds since 1970-01-01T00:00Z as a big-endian   *)
(* number (numbers above 2^31 are sequences of bytes).                           *)
EXTENDS Integers, Sequences, TLC
CONSTANT LastDay
VARIABLES civil, day

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Cum == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
\* days from 1970-01-01 to y-m-d
Days(y, m, d) == LET p == y - 1
                 IN p * 365 + p \div 4 - p \div 100 + p \div 400 - 719162
                    + Cum[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + (d - 1)

Init == civil = <<1970, 1, 1>> /\ day = 0
NextDay(c) == IF c[3] < MonthLen(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
              ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>
Next == day < LastDay /\ civil' = NextDay(civil) /\ day' = day + 1
Spec == Init /\ [][Next]_<<civil, day>>
Counts == day = Days(civil[1], civil[2], civil[3])
ASSUME Days(2000, 3, 1) = 11017 /\ Days(9999, 12, 31) = 2932896 /\ Days(2038, 1, 19) = 24855

\* ---- big numbers: 8 bytes, most significant first
MulAdd(n, m, a) ==      \* n * m + a
    LET f[k \in 0..8] == IF k = 0 THEN [c |-> a, v |-> n]
                         ELSE LET p == f[k - 1] j == 9 - k t == p.v[j] * m + p.c
                              IN [c |-> t \div 256, v |-> [p.v EXCEPT ![j] = t % 256]]
    IN f[8].v
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
\* milliseconds of a day number, second of the day and millisecond
Ms(d, s, ms) == MulAdd(MulAdd(MulAdd(Zero8, 1, d), 86400, s), 1000, ms)

\* the moment y-m-d h:mi:s.us of a zone off seconds east of UTC: day, second and microsecond in UTC
Utc(t) == LET sec == t.h * 3600 + t.mi * 60 + t.s - t.off
              d == Days(t.y, t.mo, t.d) + (sec \div 86400)       \* \div rounds down
          IN [d |-> d, s |-> sec % 86400, us |-> t.us]
AddMs(u, ms) == IF ms < 1000 THEN Ms(u.d, u.s, ms)
                ELSE IF u.s < 86399 THEN Ms(u.d, u.s + 1, 0) ELSE Ms(u.d + 1, 0, 0)
\* the nearest millisecond: both neighbours are allowed within slack microseconds of the middle
Nearest(t, slack) ==
    LET u == Utc(t)
        lo == u.us \div 1000
        r == u.us % 1000
    IN (IF r <= 500 + slack THEN {AddMs(u, lo)} ELSE {}) \cup (IF r >= 500 - slack THEN {AddMs(u, lo + 1)} ELSE {})
\* floating point seconds: exact below 2^33 s (the year 2242), and within 32 microseconds until 9999
Slack(t) == IF t.y < 2242 THEN 0 ELSE 32
=============================================================================
