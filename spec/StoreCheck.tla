------------------------------ MODULE StoreCheck ------------------------------
(* Judges a history of a packet store (P19).                                  *)
(*  [kind: "memory" | "list" | "dir", link: BOOL, pool: Seq(bytes), names: Seq(opt Name),        *)
(*   hist: Seq of [op: "put", x, ok] / [op: "new", ...] a fresh writer on the same store          *)
(*             / [op: "damage", x] the file of packet x was damaged from outside                    *)
(*             / [op: "link", x] the link file of the name of packet x was replaced by another           *)
(*             / [op: "files", fs: Seq of [path: Seq(string), x: pool index or -1, b: bytes (if -1), ok: validates]]  *)
(*             / [op: "get", name: opt Name, h: opt pool index (0: of nothing stored), ok, got: pool index or -1] *)
(*             / [op: "totals", t: record of some of the totals, n of the list of all puts]]       *)
EXTENDS Wire, Crc32c, Integers, Judge
S == INSTANCE Store WITH MaxPuts <- 0, CheckName <- TRUE, CheckLink <- TRUE, KeepFile <- FALSE, puts <- 0, byhash <- 0, links <- 0, seen <- 0, cnt <- 0

\* the message of a packet identifies it, as its hash does
PoolOf(r) == TLCEval([i \in DOMAIN r.pool |->
    LET b == r.pool[i]
        p == IF GPacket(b) = 2 THEN DPacket(b) ELSE [co |-> [name |-> <<>>, pt |-> <<>>], val |-> <<>>]
    IN [h |-> SubSeq(b, 9, Len(b)), name |-> p.co.name, len |-> Len(b), man |-> p.co.pt = <<3>>]])
Puts(r, i) == LET q == SelectSeq([j \in 1..(i-1) |-> j], LAMBDA j : (r.hist[j].op = "put" /\ r.hist[j].ok) \/ r.hist[j].op \in {"damage", "link"})
              IN [j \in DOMAIN q |-> LET e == r.hist[q[j]]
                                      IN IF e.op = "put" THEN e.x ELSE IF e.op = "damage" THEN -e.x ELSE -e.x - Len(r.pool)]
\* the puts of the current writer
Mine(r, i) == LET news == {j \in 1..(i-1) : r.hist[j].op = "new"}
                  from == IF news = {} THEN 0 ELSE Max(news)
                  q == SelectSeq([j \in 1..(i-1) |-> j], LAMBDA j : j > from /\ r.hist[j].op = "put" /\ r.hist[j].ok)
              IN [j \in DOMAIN q |-> r.hist[q[j]].x]
Want(r, pool, i) ==
    LET e == r.hist[i]
    IN IF e.h # <<>> THEN (IF e.h[1] = 0 THEN {0} ELSE S!GetByHash(pool, Puts(r, i), e.name, pool[e.h[1]].h))
       ELSE S!GetByName(pool, Puts(r, i), e.name, r.link)
\* ---- the files of a directory
\* the object that the link in a packet leads to: a set of [name, h]
Covered(b) == LET es == PacketElems(b) IN SubSeq(b, One(es, 2).lo - 4, One(es, 2).hi) \o SubSeq(b, One(es, 3).lo - 4, One(es, 3).hi)
LinkIn(f) ==
    IF GPacket(f.b) # 2 \/ ~f.ok THEN {}
    ELSE LET p == DPacket(f.b)
         IN IF p.co.pt # <<2>> \/ p.co.name = <<>> \/ p.co.pl = <<>> \/ p.val = <<>> THEN {}
            ELSE LET pl == p.co.pl[1]
                 IN IF pl = <<>> \/ GLink(pl, 1, Len(pl)) # 2 THEN {}
                    ELSE LET l == DLink(pl, 1, Len(pl))
                         IN IF l.digest = <<>> \/ (p.val[1].k = "crc" /\ p.val[1].sig # Crc(Covered(f.b))) THEN {}
                            ELSE {[name |-> p.co.name, h |-> l.digest[1].v, k |-> p.val[1].k]}
FilesRight(r, pool, i) ==
    LET puts == Puts(r, i)
        fs == r.hist[i].fs
        path(x) == IF r.nested THEN <<SubSeq(r.hex[x], 1, 2), SubSeq(r.hex[x], 3, 4), r.hex[x]>> ELSE <<r.hex[x]>>
        put == {puts[j] : j \in {k \in DOMAIN puts : puts[k] > 0}}
        whole == {x \in put : S!StoredWith(pool, puts, pool[x].h) # {}}
        hit(j) == S!LinkHit(pool, puts[j])
        last(n) == Max({j \in DOMAIN puts : puts[j] > 0 /\ pool[puts[j]].name = n})
        named == IF ~r.link THEN {} ELSE {pool[x].name : x \in {y \in put : pool[y].name # <<>>}}
        sound == {n \in named : \A j \in DOMAIN puts : (j > last(n) /\ hit(j) > 0) => pool[hit(j)].name # n}
        paths == {path(x) : x \in put}
        links == {j \in DOMAIN fs : fs[j].path \notin paths}
        content == TLCEval([j \in links |-> IF fs[j].x > 0 THEN {} ELSE LinkIn(fs[j])])
    IN /\ \A x \in whole : \E j \in DOMAIN fs : fs[j].path = path(x) /\ fs[j].x > 0
                                              /\ pool[fs[j].x].h = pool[x].h
       /\ Cardinality(links) = Cardinality(named)
       /\ \A n \in sound : \E j \in links :
            content[j] = {[name |-> n, h |-> r.hash[puts[last(n)]], k |-> IF r.signed THEN "rsa" ELSE "crc"]}

Clauses(r) ==
    LET pool == PoolOf(r)
        gets == {i \in DOMAIN r.hist : r.hist[i].op = "get"}
        want == TLCEval([i \in gets |-> Want(r, pool, i)])
        byh == {i \in gets : r.hist[i].h # <<>>}
        tots == {i \in DOMAIN r.hist : r.hist[i].op = "totals"}
        same(x, y) == x > 0 /\ r.pool[x] = r.pool[y]
        right(i) == IF want[i] = {0} THEN ~r.hist[i].ok
                    ELSE r.hist[i].ok /\ \E p \in want[i] : same(r.hist[i].got, p)
    IN << <<"put", \A i \in DOMAIN r.hist : r.hist[i].op = "put" => r.hist[i].ok>>,
          <<"get-by-hash", \A i \in byh : right(i)>>,
          <<"get-by-name", \A i \in gets \ byh : right(i)>>,
          <<"files", \A i \in DOMAIN r.hist : r.hist[i].op = "files" => FilesRight(r, pool, i)>>,
          <<"totals", \A i \in tots : LET t == S!Totals(pool, Mine(r, i))
                                     IN \A k \in DOMAIN r.hist[i].t : r.hist[i].t[k] = t[k]>>,
          <<"all-puts", \A i \in tots : r.hist[i].list # <<>> => r.hist[i].list[1] = S!PutOnly(Puts(r, i))>> >>

VARIABLE i
Init == i \in 1..K
Next == /\ i <= Len(Recs)
        /\ Report(i, Violated(Clauses(Recs[i])))
        /\ i' = i + K
Spec == Init /\ [][Next]_i
=============================================================================
