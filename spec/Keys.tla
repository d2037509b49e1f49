-------------------------------- MODULE Keys ---------------------------------
(* Key objects, symbolically. An object is a key pair k with or without its       *)
(* private half; files hold an encrypted private key or a public one. Owners make  *)
(* keys, sign, and publish; a thief reads every file, signature and sealed box,    *)
(* and knows some passwords. Encrypted: saving really encrypts (FALSE is the       *)
(* negative control).                                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Ks, Pws, Known, Pads, Msgs, Labels, Encrypted, Max
VARIABLES own, thief, files, sigs, boxes, read
vars == <<own, thief, files, sigs, boxes, read>>

Obj(k, priv) == [k |-> k, priv |-> priv]
PubFile(k) == [k |-> k, pw |-> "public"]
PrivFile(k, pw) == [k |-> k, pw |-> pw]
\* what the operations give: <<>> for a refusal
Load(f, pw) == IF f.pw = "public" THEN <<Obj(f.k, FALSE)>>
               ELSE IF f.pw = pw \/ ~Encrypted THEN <<Obj(f.k, TRUE)>> ELSE <<>>
Save(o, pw) == IF o.priv THEN <<PrivFile(o.k, pw)>> ELSE <<>>
Sign(o, pad, m) == IF o.priv THEN <<[k |-> o.k, pad |-> pad, m |-> m]>> ELSE <<>>
Verifies(o, s, pad, m) == s.k = o.k /\ s.pad = pad /\ s.m = m
Seal(o, label, m) == [k |-> o.k, label |-> label, m |-> m]
Opens(o, b, label) == o.priv /\ o.k = b.k /\ b.label = label

Init == /\ own = {Obj(k, TRUE) : k \in Ks}
        /\ thief = {} /\ files = {} /\ sigs = {} /\ boxes = {} /\ read = {}
Range(s) == {s[i] : i \in DOMAIN s}
Small(S) == Cardinality(S) < Max
Publish == \E k \in Ks : files' = files \cup {PubFile(k)} /\ UNCHANGED <<own, thief, sigs, boxes, read>>
DoSave == \E o \in own : \E pw \in Pws : Small(files) /\ files' = files \cup Range(Save(o, pw)) /\ UNCHANGED <<own, thief, sigs, boxes, read>>
DoSign == \E o \in own : \E pad \in Pads : \E m \in Msgs : Small(sigs) /\ sigs' = sigs \cup Range(Sign(o, pad, m)) /\ UNCHANGED <<own, thief, files, boxes, read>>
DoSeal == \E o \in own : \E l \in Labels : \E m \in Msgs : Small(boxes) /\ boxes' = boxes \cup {Seal(o, l, m)} /\ UNCHANGED <<own, thief, files, sigs, read>>
Steal == \E f \in files : \E pw \in Known : thief' = thief \cup Range(Load(f, pw)) /\ UNCHANGED <<own, files, sigs, boxes, read>>
Forge == \E o \in thief : \E pad \in Pads : \E m \in Msgs : Small(sigs) /\ sigs' = sigs \cup Range(Sign(o, pad, m)) /\ UNCHANGED <<own, thief, files, boxes, read>>
Peek == \E o \in thief : \E b \in boxes : \E l \in Labels : read' = (IF Opens(o, b, l) THEN read \cup {b} ELSE read) /\ UNCHANGED <<own, thief, files, sigs, boxes>>
Next == Publish \/ DoSave \/ DoSign \/ DoSeal \/ Steal \/ Forge \/ Peek
Spec == Init /\ [][Next]_vars

Stolen == {k \in Ks : \E f \in files : f.k = k /\ f.pw \in Known}
\* a private key is had only by those who knew the password of a file with it
Kept == \A o \in thief : o.priv => o.k \in Stolen
\* a box is read only with a private key, under its own label
Sealed == \A b \in read : b.k \in Stolen
\* a reload is the same key; a public object can do no private thing
Faithful == /\ \A f \in files : \A pw \in Pws : Load(f, pw) # <<>> => Load(f, pw)[1].k = f.k
            /\ \A k \in Ks : \A pad \in Pads : \A m \in Msgs : Sign(Obj(k, FALSE), pad, m) = <<>> /\ Save(Obj(k, FALSE), "p") = <<>>
Unique == \A s \in sigs : \A k \in Ks : \A pad \in Pads : \A m \in Msgs :
             Verifies(Obj(k, FALSE), s, pad, m) <=> s = [k |-> k, pad |-> pad, m |-> m]
=============================================================================
