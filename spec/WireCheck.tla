------------------------------ MODULE WireCheck ------------------------------
(* Judges what the real code serialized and parsed (P09, P10, P11, P12).       *)
EXTENDS Wire, Judge, Sha256

Enc(k, a) == IF k = "packet" THEN EncPacket(a) ELSE EncManifest(a)
Grade(k, b) == IF k = "packet" THEN GPacket(b) ELSE GManifestB(b)
Dec(k, b) == IF k = "packet" THEN DPacket(b) ELSE DManifestB(b)
NoPad(k, a) == IF k = "manifest" /\ a.node # <<>> THEN [a EXCEPT !.node = <<[a.node[1] EXCEPT !.pad = <<>>]>>] ELSE a
HasPad(k, a) == k = "manifest" /\ a.node # <<>> /\ a.node[1].pad # <<>>

\* an object built from the abstract value r.abs, and parsed again
RoundTrip(r) ==
    IF ~r.built THEN <<<<"build", FALSE>>>>
    ELSE LET enc == TLCEval(Enc(r.k, r.abs))
             clean == ~HasPad(r.k, r.abs)
         IN << <<"serialize", r.bytes = enc>>,
               <<"length", r.len = Len(enc)>>,
               <<"parse", r.parsed>>,
               <<"values", r.parsed => r.projected /\ r.abs2 = NoPad(r.k, r.abs)>>,
               <<"reserialize", (r.parsed /\ clean) => r.bytes2 = enc>>,
               <<"equal", (r.parsed /\ clean) => r.eq>>,
               <<"own-format", (Grade(r.k, enc) = 2 \/ (r.k = "packet" /\ r.abs.co.pt # <<>> /\ r.abs.co.pt[1] > 3)) /\ Dec(r.k, enc) = r.abs>>,   \* of the specification itself
               <<"file", r.k = "packet" => (r.load.ok /\ r.load.file = enc /\ r.load.bytes = enc /\ r.load.eq)>>,
               <<"walk", (r.k = "manifest" /\ r.abs.node # <<>> /\ Walkable(r.abs.node[1])) =>
                            (r.walk.ok /\ r.walk.v = Walk(r.abs.node[1]))>> >>

\* any bytes given to the parser
Mutant(r) ==
    LET g == Grade(r.k, r.bytes)
    IN << <<"rejects-malformed", (g = 0) => ~r.ok>>,
          <<"accepts-well-formed", (g = 2) => r.ok>>,
          <<"reads-well-formed", (g = 2 /\ r.ok) => (r.projected /\ r.abs2 = NoPad(r.k, Dec(r.k, r.bytes)))>> >>

\* the manifest inside a packet
PacketManifest(r) ==
    LET gp == GPacket(r.bytes)
        isM == gp = 2 /\ DPacket(r.bytes).co.pt = <<3>> /\ DPacket(r.bytes).co.pl # <<>>
        gm == IF isM THEN GManifestB(DPacket(r.bytes).co.pl[1]) ELSE 1
    IN << <<"rejects-malformed", (gp = 0 \/ (isM /\ gm = 0)) => ~r.ok>>,
          <<"accepts-well-formed", (isM /\ gm = 2) => r.ok>>,
          <<"reads-well-formed", (isM /\ gm = 2 /\ r.ok) => (r.projected /\ r.abs2 = NoPad("manifest", DManifestB(DPacket(r.bytes).co.pl[1])))>> >>

\* the object hash of a packet: [bytes, ohs: seq of hashes as seen on the built, parsed and loaded packet, full]
HashOf(r) ==
    LET rng == MsgRange(r.bytes)
        msg == SubSeq(r.bytes, rng[1], rng[2])
    IN << <<"message", GPacket(r.bytes) >= 1>>,
          <<"sha256", \A i \in DOMAIN r.ohs : r.ohs[i] = [a |-> 1, v |-> Sha256(msg)]>>,
          <<"fields", (r.bytes = EncPacket(r.abs))>> >>
\* a family of packets that differ in one field: all hashes differ (identical packets: all equal)
Family(r) ==
    << <<"distinct", \A i, j \in DOMAIN r.members :
                        (r.members[i].abs = r.members[j].abs) <=> (r.members[i].oh = r.members[j].oh)>> >>

Clauses(r) ==
    CASE r.t = "rt" -> RoundTrip(r)
      [] r.t = "mut" -> Mutant(r)
      [] r.t = "pm" -> PacketManifest(r)
      [] r.t = "hash" -> HashOf(r)
      [] r.t = "family" -> Family(r)

VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
