------------------------------- MODULE AeadSys -------------------------------
(* Manifest encryption with pre-shared keys, symbolically. A sealed manifest is   *)
(* [ctx: [kn, mode, nonce], key, iv, ad, node]: what key, IV and associated data    *)
(* its ciphertext and tag were made with. Attackers recombine contexts and sealed  *)
(* parts; a reader opens one with its parameters only if everything agrees.        *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Keys, Modes, Salts, Nums, Nonces, Nodes, MaxMade, Reset    \* Reset: encryptors start their nonces again
Params == [key : Keys, mode : Modes, salt : Salts, kn : Nums]
VARIABLES made, used, next, opened
vars == <<made, used, next, opened>>

Iv(p, nonce) == <<p.salt, nonce>>
Seal(p, nonce, node) == LET ctx == [kn |-> p.kn, mode |-> p.mode, nonce |-> nonce]
                        IN [ctx |-> ctx, body |-> [key |-> p.key, mode |-> p.mode, iv |-> Iv(p, nonce), ad |-> ctx, node |-> node]]
Opens(p, m) == /\ m.ctx.kn = p.kn
               /\ m.ctx.mode = p.mode
               /\ m.body.key = p.key /\ m.body.mode = p.mode
               /\ m.body.iv = Iv(p, m.ctx.nonce)
               /\ m.body.ad = m.ctx

Init == made = {} /\ used = {} /\ next = [k \in Keys |-> 1] /\ opened = {}
Encrypt(p, nonce, node) ==
    /\ Cardinality(used) < MaxMade
    /\ (~Reset => \A u \in used : u[2] # nonce)          \* a fresh nonce
    /\ (Reset => nonce = next[p.key])
    /\ next' = [next EXCEPT ![p.key] = IF @ = Cardinality(Nonces) THEN @ ELSE @ + 1]
    /\ used' = used \cup {<<p.key, nonce, p.salt, p.mode, node, p.kn>>}
    /\ made' = made \cup {Seal(p, nonce, node)}
    /\ UNCHANGED opened
Restart == Reset /\ next' = [k \in Keys |-> 1] /\ UNCHANGED <<made, used, opened>>
Recombine(m, n) == made' = made \cup {[ctx |-> m.ctx, body |-> n.body]} /\ UNCHANGED <<used, next, opened>>
Change(m, kn, mode, nonce) == /\ made' = made \cup {[m EXCEPT !.ctx = [kn |-> kn, mode |-> mode, nonce |-> nonce]]}
                              /\ UNCHANGED <<used, next, opened>>
Decrypt(p, m) == /\ Opens(p, m)
                 /\ opened' = opened \cup {[p |-> p, ctx |-> m.ctx, node |-> m.body.node]}
                 /\ UNCHANGED <<made, used, next>>
Next == \/ \E p \in Params, n \in Nonces, d \in Nodes : Encrypt(p, n, d)
        \/ Restart
        \/ Cardinality(made) < MaxMade + 1 /\ \E m \in made, n \in made : Recombine(m, n)
        \/ Cardinality(made) < MaxMade + 1 /\ \E m \in made, kn \in Nums, mode \in Modes, nonce \in Nonces : Change(m, kn, mode, nonce)
        \/ Cardinality(opened) < 1 /\ \E p \in Params, m \in made : Decrypt(p, m)
Spec == Init /\ [][Next]_vars

\* whatever a reader opens was encrypted under exactly its key, mode, salt and number, with that context
Authentic == \A o \in opened : <<o.p.key, o.ctx.nonce, o.p.salt, o.p.mode, o.node, o.p.kn>> \in used
\* no two encryptions under one key use one IV
NoReuse == \A u, v \in used : u[1] = v[1] /\ u[2] = v[2] /\ u[3] = v[3] => u = v
Lossless == \A u \in used : LET p == [key |-> u[1], mode |-> u[4], salt |-> u[3], kn |-> u[6]]
                            IN Opens(p, Seal(p, u[2], u[5]))
=============================================================================
