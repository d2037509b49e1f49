------------------------------- MODULE KeyStore ------------------------------
(* A keystore and the decryption of manifests with it.                            *)
(*  Store: [name: name -> [k, priv], id: key -> [k, priv], aes: number -> params]     *)
(*  A manifest: [kind: "aead" | "oaep", kn, p: the params it was really sealed with,     *)
(*               intact, wrap: <<>> or <<[k: the key id it names, fits: BOOLEAN]>>]       *)
(*  fits: the wrapped key is unchanged, and number, mode, key-derivation data and key     *)
(*  id are those it was wrapped for (they are bound to it).                             *)
(* Unwrapping a key makes the keystore learn it; whether it does so when the manifest    *)
(* then turns out to be damaged is left open.                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Names, Keys, Nums, Manifests, MaxOps
VARIABLES st, hist, last

Empty == [name |-> <<>>, id |-> <<>>, aes |-> <<>>]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
AddRsa(s, n, k, priv) == [s EXCEPT !.name = Put(@, n, [k |-> k, priv |-> priv]), !.id = Put(@, k, [k |-> k, priv |-> priv])]
AddAes(s, num, p) == [s EXCEPT !.aes = Put(@, num, p)]

\* the possible outcomes of decrypting m: a set of [ok, st]
Out(ok, s) == [ok |-> ok, st |-> s]
Dec(s, m) ==
    IF m.kn \in DOMAIN s.aes THEN {Out(m.intact /\ s.aes[m.kn] = m.p, s)}
    ELSE IF m.kind = "aead" \/ m.wrap = <<>> THEN {Out(FALSE, s)}
    ELSE LET w == m.wrap[1] IN
         IF w.k \notin DOMAIN s.id \/ ~w.fits THEN {Out(FALSE, s)}
         ELSE IF ~s.id[w.k].priv THEN {Out(FALSE, s)}
         ELSE IF m.intact THEN {Out(TRUE, AddAes(s, m.kn, m.p))}
         ELSE {Out(FALSE, s), Out(FALSE, AddAes(s, m.kn, m.p))}

Init == st = Empty /\ hist = {} /\ last = <<>>
Log(e) == hist' = hist \cup {e}
DoRsa(n, k, priv) == st' = AddRsa(st, n, k, priv) /\ Log(<<"rsa", k, priv>>) /\ last' = <<>>
DoAes(num, p) == st' = AddAes(st, num, p) /\ Log(<<"aes", num, p>>) /\ last' = <<>>
DoDec(m) == \E o \in Dec(st, m) : st' = o.st /\ last' = <<m, o.ok>> /\ hist' = IF o.ok THEN hist \cup {<<"opened", m>>} ELSE hist
Next == /\ Cardinality(hist) < MaxOps
        /\ \/ \E n \in Names, k \in Keys, priv \in BOOLEAN : DoRsa(n, k, priv)
           \/ \E num \in Nums : \E p \in {num, 0} : DoAes(num, p)
           \/ \E m \in Manifests : DoDec(m)
Spec == Init /\ [][Next]_<<st, hist, last>>

\* only a holder of the AES key, or of the private key that the manifest's tree was wrapped for, opens anything
Secret == \A e \in hist : e[1] = "opened" =>
              /\ e[2].intact
              /\ \/ <<"aes", e[2].kn, e[2].p>> \in hist
                 \/ \E m \in Manifests : /\ m.kn = e[2].kn /\ m.p = e[2].p /\ m.wrap # <<>>
                                         /\ m.wrap[1].fits /\ <<"rsa", m.wrap[1].k, TRUE>> \in hist
\* once a tree's key is known, all its intact manifests open
Once == \A m \in Manifests : (m.intact /\ m.kn \in DOMAIN st.aes /\ st.aes[m.kn] = m.p) => \A o \in Dec(st, m) : o.ok
\* what failed changes nothing for the others: a failure never makes an intact manifest fail
Independent == [][(last' # <<>> /\ ~last'[2]) =>
                  \A m \in Manifests : (\E o \in Dec(st, m) : o.ok) => (\E o \in Dec(st', m) : o.ok)]_<<st, hist, last>>
=============================================================================
