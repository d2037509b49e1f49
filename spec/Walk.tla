--------------------------------- MODULE Walk ---------------------------------
(***************************************************************************)
(* What a walk of a manifest tree trusts. A tree T is a sequence of nodes      *)
(*   [k: "data" | "man" | "other", pl: bytes, kids: Seq(node),                 *)
(*    sig: 0 unsigned, 1 checksum, 1 + s signed by s;  bad: does not hold,      *)
(*    enc: <<>>, or <<number, version>> of the AES key of a manifest, or           *)
(*         <<number, version, w>>: that key is wrapped for key w (0: not here)]    *)
(* A keystore is [on: is there one, rsa: signers, priv: unwrapping keys,           *)
(*   aes: number :> version]. Opening a manifest with a wrapped key teaches it.    *)
(* A walk is a stack machine; an object is validated when it arrives, before     *)
(* anything of it is used.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Accepts(ks, n) == CASE n.sig = 0 -> TRUE
                    [] n.sig = 1 -> ~n.bad
                    [] OTHER -> ~ks.on \/ (n.sig - 1 \in ks.rsa /\ ~n.bad)
\* a known number decides alone: the wrapped key is for those who do not know it
Opening(ks, n) ==
    IF n.enc = <<>> THEN [ok |-> TRUE, ks |-> ks]
    ELSE IF ~ks.on THEN [ok |-> FALSE, ks |-> ks]
    ELSE IF n.enc[1] \in DOMAIN ks.aes THEN [ok |-> ks.aes[n.enc[1]] = n.enc[2], ks |-> ks]
    ELSE IF Len(n.enc) = 3 /\ n.enc[Len(n.enc)] \in ks.priv THEN [ok |-> TRUE, ks |-> [ks EXCEPT !.aes = (n.enc[1] :> n.enc[2]) @@ @]]
    ELSE [ok |-> FALSE, ks |-> ks]
Opens(ks, n) == Opening(ks, n).ok
Begin(root, ks) == [todo |-> <<root>>, fetched |-> <<>>, out |-> <<>>, err |-> FALSE, ks |-> ks]
Over(st) == st.err \/ st.todo = <<>>
\* all: is every object validated (or the root only)
StepBy(T, st, all) ==
    IF Over(st) THEN st
    ELSE LET x == Head(st.todo)
             n == T[x]
             o == Opening(st.ks, n)
             got == [st EXCEPT !.fetched = Append(@, x), !.todo = Tail(@)]
         IN IF (all \/ st.fetched = <<>>) /\ ~Accepts(st.ks, n) THEN [got EXCEPT !.err = TRUE]
            ELSE CASE n.k = "data" -> [got EXCEPT !.out = Append(@, x)]
                   [] n.k = "man" -> IF o.ok THEN [got EXCEPT !.todo = n.kids \o @, !.ks = o.ks] ELSE [got EXCEPT !.err = TRUE]
                   [] OTHER -> [got EXCEPT !.err = TRUE]
Walked(T, ks, root, n) == FoldLeft(LAMBDA st, i : TLCEval(StepBy(T, st, TRUE)), Begin(root, ks), [i \in 1..n |-> i])

---------------------------------------------------------------------------
\* Small trees, in which each object may be at fault, and a keystore that grows between walks
CONSTANT All
Kids == << <<2, 3, 4>>, <<>>, <<5, 6>>, <<>>, <<>>, <<>> >>
Anc(x) == CASE x = 1 -> {1} [] x \in {2, 4} -> {1, x} [] x = 3 -> {1, 3} [] OTHER -> {1, 3, x}
Plain == [sig |-> 0, bad |-> FALSE, enc |-> <<>>]
Looks(x) == {[sig |-> s, bad |-> b, enc |-> e] : s \in {0, 1, 2, 3}, b \in BOOLEAN,
             e \in IF x \in {1, 3} THEN {<<>>, <<7, 1>>, <<7, 2>>, <<7, 1, 0>>, <<7, 1, 1>>, <<7, 2, 1>>, <<7, 1, 2>>} ELSE {<<>>}}
VARIABLES T, st
vars == <<T, st>>
Tree(f) == [x \in 1..6 |-> [k |-> IF x \in {1, 3} THEN "man" ELSE "data", pl |-> <<x>>, kids |-> Kids[x],
                            sig |-> f[x].sig, bad |-> f[x].bad, enc |-> f[x].enc]]
\* at most two objects are not plain
Init == /\ \E x \in 1..6, y \in 1..6 : \E l \in Looks(x), m \in Looks(y) :
              T = Tree([z \in 1..6 |-> IF z = x THEN l ELSE IF z = y THEN m ELSE Plain])
        /\ \E on \in BOOLEAN, rsa \in {{}, {1}}, aes \in {<<>>, 7 :> 1} :
              st = Begin(1, [on |-> on, rsa |-> rsa, priv |-> {}, aes |-> aes])
Walk == ~Over(st) /\ st' = StepBy(T, st, All) /\ UNCHANGED T
\* between two walks
Learn == /\ Over(st) /\ st.ks.on /\ UNCHANGED T
         /\ \/ \E s \in {1, 2} \ st.ks.rsa : st' = Begin(1, [st.ks EXCEPT !.rsa = @ \cup {s}])
            \/ 1 \notin st.ks.priv /\ st' = Begin(1, [st.ks EXCEPT !.priv = {1}])
            \/ \E v \in {1, 2} : st.ks.aes # (7 :> v) /\ st' = Begin(1, [st.ks EXCEPT !.aes = 7 :> v])
Next == Walk \/ Learn
Spec == Init /\ [][Next]_vars
\* whatever is written, it and all the manifests that led to it are authentic
OutTrusted == \A i \in DOMAIN st.out : \A x \in Anc(st.out[i]) : Accepts(st.ks, T[x]) /\ Opens(st.ks, T[x])
\* nothing is asked for on the word of an object that is not authentic
FetchTrusted == \A i \in DOMAIN st.fetched : \A x \in Anc(st.fetched[i]) \ {st.fetched[i]} : Accepts(st.ks, T[x]) /\ Opens(st.ks, T[x])
\* the order is the pre-order, and a walk ends well only if every object is in order
Order == SubSeq(<<1, 2, 3, 5, 6, 4>>, 1, Len(st.fetched)) = st.fetched
EndsWell == (Over(st) /\ ~st.err) <=> (Over(st) /\ \A x \in 1..6 : Accepts(st.ks, T[x]) /\ Opens(st.ks, T[x]))
\* a walk learns the key of a number it did not know, and only from a manifest that it fetched and could unwrap
Learns == [][(T' = T /\ st'.ks.aes # st.ks.aes) =>
                \/ st'.fetched = <<>>
                \/ LET n == T[st'.fetched[Len(st'.fetched)]]
                   IN Len(n.enc) = 3 /\ n.enc[3] \in st.ks.priv /\ n.enc[1] \notin DOMAIN st.ks.aes /\ Accepts(st.ks, n)]_vars
=============================================================================
