------------------------------ MODULE Validation -----------------------------
(* Signing and validating packets, symbolically: a signature is the pair of the  *)
(* signing key and what was signed. A packet names a key, has a message and     *)
(* carries a signature or a checksum. Anyone may build packets from everything  *)
(* seen so far; only the owner of a key makes signatures with it.               *)
(* Msgs: the messages (body and validation algorithm without the key id).       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Keys, Msgs, MaxPkts
VARIABLES sigs, store, pkts, accepted
vars == <<sigs, store, pkts, accepted>>

\* alg: 0 none, -1 would be a checksum: "crc"; a key otherwise
Signed(k, m) == [alg |-> "rsa", key |-> k, m |-> m, sig |-> <<k, k, m>>]       \* signed by k, over <key id k, m>
Sum(m) == [alg |-> "crc", key |-> 0, m |-> m, sig |-> <<0, 0, m>>]
Plain(m) == [alg |-> "none", key |-> 0, m |-> m, sig |-> <<>>]

Accepts(p, st) == CASE p.alg = "none" -> TRUE
                    [] p.alg = "crc" -> p.sig = <<0, 0, p.m>>
                    [] p.alg = "rsa" -> p.key \in st /\ p.sig = <<p.key, p.key, p.m>>

Init == sigs = {} /\ store = {} /\ pkts = {} /\ accepted = {}
Put(p) == Cardinality(pkts) < MaxPkts /\ pkts' = pkts \cup {p}
Sign(k, m) == /\ Put(Signed(k, m)) /\ sigs' = sigs \cup {<<k, k, m>>} /\ UNCHANGED <<store, accepted>>
\* a forger combines a key id, a message and a signature that was seen
Forge(k, m, s) == /\ s \in sigs /\ Put([alg |-> "rsa", key |-> k, m |-> m, sig |-> s]) /\ UNCHANGED <<sigs, store, accepted>>
Check(m) == Put(Sum(m)) /\ UNCHANGED <<sigs, store, accepted>>
Damage(p, m) == p.alg = "crc" /\ Put([p EXCEPT !.m = m]) /\ UNCHANGED <<sigs, store, accepted>>
AddKey(k) == store' = store \cup {k} /\ UNCHANGED <<sigs, pkts, accepted>>
Validate(p) == /\ accepted' = IF Accepts(p, store) THEN accepted \cup {<<p, store>>} ELSE accepted
               /\ UNCHANGED <<sigs, store, pkts>>
Next == \/ \E k \in Keys, m \in Msgs : Sign(k, m)
        \/ \E k \in Keys, m \in Msgs, s \in sigs : Forge(k, m, s)
        \/ \E m \in Msgs : Check(m)
        \/ \E p \in pkts, m \in Msgs : Damage(p, m)
        \/ \E k \in Keys : AddKey(k)
        \/ \E p \in pkts : Validate(p)
Spec == Init /\ [][Next]_vars

\* accepted packets with a signature were signed as they are by the owner of the key they name, who is trusted
Authentic == \A a \in accepted : a[1].alg = "rsa" => a[1].key \in a[2] /\ Signed(a[1].key, a[1].m).sig \in sigs
\* and genuine ones are accepted as soon as the key is there, whatever else the store holds
Complete == \A p \in pkts : p.alg = "rsa" /\ p.sig = <<p.key, p.key, p.m>> => (Accepts(p, store) <=> p.key \in store)
Monotone == [][\A p \in pkts : Accepts(p, store) => Accepts(p, store')]_vars
=============================================================================
