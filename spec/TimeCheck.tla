------------------------------ MODULE TimeCheck ------------------------------
(* Judges times (P26).                                                          *)
(*  [t: [y, mo, d, h, mi, s, us, off], raw: built from seconds, ok, type, wire, ms, pms, pwire, eq, neq, back: [y, mo, d, h, mi, s, us, off], same: BOOLEAN] *)
(*  near: [t: "between", a, b, wire]                                             *)
EXTENDS Times, Judge
LOCAL I == INSTANCE Wire
Clauses(r) ==
    IF ~r.ok THEN << <<"built", FALSE>> >>
    ELSE LET slack == Slack(r.t) + (IF r.raw THEN 2 ELSE 0)
             want == TLCEval(Nearest(r.t, slack))
             v == SubSeq(r.wire, 5, Len(r.wire))
         IN << <<"nearest", v \in want>>,
               <<"wire", r.wire = I!TLV(r.type, v) /\ Len(v) = 8>>,
               <<"milliseconds", r.ms = v>>,
               <<"parsed", r.pms = v /\ r.pwire = r.wire>>,
               <<"equal", r.eq /\ ~r.neq>>,
               <<"date", v \in Nearest(r.back, 0) \/ v \in Nearest(r.back, slack)>>,
               <<"zone", r.same>> >>
VARIABLE i
JInit == i \in 1..K /\ civil = 0 /\ day = 0
JNext == /\ i <= Len(Recs)
         /\ Report(i, Violated(Clauses(Recs[i])))
         /\ i' = i + K /\ UNCHANGED <<civil, day>>
JSpec == JInit /\ [][JNext]_<<i, civil, day>>
=============================================================================
