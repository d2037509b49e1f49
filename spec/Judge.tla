-------------------------------- MODULE Judge --------------------------------
(* Records of the real code, as newline-delimited JSON, judged one at a time  *)
(* by K independent chains of TLC transitions. A judge module defines         *)
(* Fails(r): the set of names of the clauses that record r violates.          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
PID == IOEnv.PID
K == 16

\* clauses: a sequence of <<name, holds>>
Violated(cs) == {cs[i][1] : i \in {j \in DOMAIN cs : ~cs[j][2]}}
Report(i, fs) == /\ \A f \in fs : PrintT(<<"FAIL", i, f>>)
                 /\ PrintT(<<"DONE", i>>)
=============================================================================
