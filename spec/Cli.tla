--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command-line tools: what the writer's options ask for, and when the  *)
(* reader must recreate the file.                                           *)
(*                                                                          *)
(* Writer options o:                                                        *)
(*  [schema: "Hashed" | "Prefix" | "Segmented", name: Name, mp, dp, ml, dl: *)
(*   opt Name, deg: opt Int, size: opt Int, sign, link: BOOLEAN,            *)
(*   rexp, mexp, dexp: opt Num (milliseconds), key: opt bytes, ccm: BOOLEAN,*)
(*   kn, salt: opt Num, kdf: opt Num (algorithm), info: opt bytes,          *)
(*   uuid: BOOLEAN, wrap: opt [bytes: Int (modulus), keyid: Hash],          *)
(*   password: BOOLEAN (the passwords are the keys'),                       *)
(*   bad: 1 if an argument is none of these]                                *)
(* Reader options q:                                                        *)
(*  [name: Name, hash: opt bytes, sign: "none" | "right" | "other",         *)
(*   key, ccm, kn, salt as above, wrap: "none" | "right" | "other" | "pub"] *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
LOCAL INSTANCE Sha256

DefaultSize == 1500
Strip(b) == LET nz == {i \in DOMAIN b : b[i] # 0}
            IN IF nz = {} THEN <<0>> ELSE SubSeq(b, CHOOSE i \in nz : \A j \in nz : i <= j, Len(b))
\* the key number is given, or told by the key
KeyNumber(o) == IF o.kn # <<>> THEN o.kn[1] ELSE Strip(SubSeq(Sha256(o.key[1]), 1, 8))
Size(o) == IF o.size = <<>> THEN DefaultSize ELSE o.size[1]
Degree(o) == IF o.deg = <<>> THEN 0 ELSE o.deg[1]
Encrypted(o) == o.key # <<>> \/ o.wrap # <<>>

\* option combinations that make no sense must be refused
Sensible(o) ==
    /\ o.password /\ o.bad = 0
    /\ o.schema = "Segmented" => (o.mp # <<>> /\ o.dp # <<>>)
    /\ o.schema = "Hashed" => (o.mp = <<>> /\ o.dp = <<>>)
    /\ (o.schema = "Segmented" => o.mp # o.dp)
    /\ o.key # <<>> => Len(o.key[1]) \in {16, 32}
    /\ (o.key # <<>> /\ o.wrap # <<>>) => o.salt # <<>>
    /\ (o.key # <<>> /\ o.salt # <<>>) => Len(o.salt[1]) <= 4

Mode(o) == IF o.key = <<>> THEN 2
           ELSE (IF Len(o.key[1]) = 16 THEN 1 ELSE 2) + (IF o.ccm THEN 2 ELSE 0)
NonceLen(o) == IF o.key # <<>> /\ o.salt = <<>> THEN 12 ELSE 8
KdfOf(o) == IF o.kdf = <<>> THEN <<>> ELSE <<[alg |-> o.kdf[1], info |-> o.info]>>
\* a locator
Loc(l) == IF l = <<>> THEN <<>> ELSE <<<<[name |-> l, keyid |-> <<>>, digest |-> <<>>]>>>>
\* the configuration of the publication (see FlicTree)
Config(o) ==
    [schema |-> CASE o.schema = "Hashed" -> "hash" [] o.schema = "Prefix" -> "prefix" [] o.schema = "Segmented" -> "seg",
     name |-> o.name, mp |-> o.mp, dp |-> o.dp, ml |-> Loc(o.ml), dl |-> Loc(o.dl), maxp |-> Size(o), deg |-> Degree(o),
     rexp |-> o.rexp, mexp |-> o.mexp, dexp |-> o.dexp, sign |-> IF o.sign THEN "rsa" ELSE "none",
     ann |-> [ns |-> TRUE, gs |-> FALSE, gl |-> FALSE], first |-> 0,
     enc |-> IF ~Encrypted(o) THEN <<>>
             ELSE <<[oaep |-> o.wrap # <<>>, kn |-> IF o.key = <<>> THEN <<255, 255, 255, 255>> ELSE KeyNumber(o), nlen |-> NonceLen(o),
                     mode |-> Mode(o), kdf |-> IF o.kdf # <<>> /\ o.uuid THEN <<[alg |-> o.kdf[1], info |-> <<[i \in 1..16 |-> 0]>>]>> ELSE KdfOf(o),
                     wrap |-> IF o.wrap = <<>> THEN 0 ELSE o.wrap[1].bytes]>>]

\* the reader's options, against the writer's and the hash of the root
Finds(o, q, h) == IF q.hash # <<>> THEN q.hash[1] = h /\ q.name = o.name ELSE o.link /\ q.name = o.name
Trusts(o, q) == o.sign => q.sign = "right"
SameKey(o, q) == q.key = o.key /\ q.ccm = o.ccm /\ KeyNumber(q) = KeyNumber(o)
                 /\ (q.salt = o.salt \/ (q.salt # <<>> /\ o.salt # <<>> /\ q.salt[1] = o.salt[1]))
Opens(o, q) == CASE ~Encrypted(o) -> TRUE
                 [] o.wrap # <<>> -> q.wrap = "right" \/ (q.key # <<>> /\ o.key # <<>> /\ SameKey(o, q))
                 [] OTHER -> q.key # <<>> /\ SameKey(o, q)
\* "exact": must recreate the file; "fail": must fail without wrong data; "either": must not write wrong data
Expect(o, q, h) ==
    IF ~Finds(o, q, h) \/ ~Trusts(o, q) \/ ~Opens(o, q) THEN "fail"
    ELSE IF o.wrap # <<>> /\ q.key # <<>> /\ (o.key = <<>> \/ ~SameKey(o, q)) THEN "either"
    ELSE "exact"
=============================================================================
