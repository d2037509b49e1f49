------------------------------- MODULE KeyCache ------------------------------
(* A reader that remembers the keys it has used: what it does must be what a      *)
(* reader without a memory (KeyStore) does, whatever becomes of the keystore.       *)
(*  Check = "same": a remembered key is used only while the keystore holds that    *)
(*  very key for the number; "known": while it holds some key; "none": always.     *)
EXTENDS KeyModel, FiniteSets, TLC
CONSTANT Check
VARIABLE cache
Usable(m) == m.kn \in DOMAIN cache /\ CASE Check = "none" -> TRUE
                                       [] Check = "known" -> m.kn \in DOMAIN st.aes
                                       [] OTHER -> m.kn \in DOMAIN st.aes /\ st.aes[m.kn] = cache[m.kn]
DecCached(m) ==
    \/ /\ Usable(m)
       /\ last' = <<m, m.intact /\ cache[m.kn] = m.p>> /\ UNCHANGED <<st, cache>>
    \/ /\ ~Usable(m)
       /\ \E o \in Dec(st, m) :
             /\ st' = o.st /\ last' = <<m, o.ok>>
             /\ cache' = IF m.kn \in DOMAIN o.st.aes THEN Put(cache, m.kn, o.st.aes[m.kn]) ELSE cache
CInit == Init /\ cache = <<>>
CNext == \/ /\ Cardinality(hist) < 4
            /\ \/ \E n \in {"a", "b"}, k \in {1, 2}, priv \in BOOLEAN : DoRsa(n, k, priv)
               \/ \E num \in {1, 2, 3} : \E p \in {num, 0} : DoAes(num, p)
            /\ UNCHANGED cache
         \/ \E m \in Ms : DecCached(m) /\ UNCHANGED hist
CSpec == CInit /\ [][CNext]_<<st, hist, last, cache>>
Refines == [][(last' # last \/ st' # st) /\ last' # <<>> => \E o \in Dec(st, last'[1]) : o.ok = last'[2] /\ o.st = st']_<<st, hist, last, cache>>
=============================================================================
