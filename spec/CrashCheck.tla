----------------------------- MODULE CrashCheck -----------------------------
(* Judges what a stopped publication left in its directory, as Crash.tla has   *)
(* it (P07). A record is one stop:                                             *)
(*  [file, hit: the stop was reached, ok: the publication reported success,     *)
(*   ev: Seq(event) the whole objects in the directory,                         *)
(*   links: Seq(bytes) the whole link objects,                                  *)
(*   again: [ok, out]: published again over what was left, and retrieved]       *)
EXTENDS FlicTree, Judge

(* the named link of a link object: <<[name, to]>>, or <<>> if it is not one *)
LinkOf(b) ==
    IF GPacket(b) # 2 THEN <<>>
    ELSE LET co == DPacket(b).co
         IN IF co.pt # <<2>> \/ co.pl = <<>> \/ co.name = <<>> THEN <<>>
            ELSE LET p == co.pl[1]
                 IN IF p = <<>> \/ GLink(p, 1, Len(p)) # 2 THEN <<>>
                    ELSE LET l == DLink(p, 1, Len(p))
                         IN IF l.digest = <<>> THEN <<>> ELSE <<[name |-> co.name, to |-> l.digest[1].v]>>

CrashClauses(r) ==
    LET o == Objs(r.ev)
        hs == TLCEval({o[i].h : i \in DOMAIN o})
        ls == TLCEval([x \in DOMAIN r.links |-> LinkOf(r.links[x])])
    IN << <<"reported", r.hit => ~r.ok>>,
          <<"readable", \A i \in DOMAIN o : o[i].ok>>,
          <<"no-dangling-file", \A i \in DOMAIN o : o[i].ok => \A k \in DOMAIN o[i].ptrs : o[i].ptrs[k].h \in hs>>,
          <<"link-leads", \A x \in DOMAIN ls :
               ls[x] # <<>> /\ \E i \in DOMAIN o : o[i].h = ls[x][1].to /\ o[i].ok /\ o[i].co.name = ls[x][1].name>>,
          <<"recovers", r.again.ok /\ r.again.out = r.file>> >>

VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(CrashClauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
