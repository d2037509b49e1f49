-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* A packet store. The history of puts is the specification; the tables that *)
(* an implementation keeps (files by hash, links by name, counters) are the   *)
(* design, and refine it.                                                     *)
(*   a packet is an index into Pool: [h, name: opt, len, man]                 *)
(* An element of the history is a put of a packet (its index) or damage done   *)
(* from outside to the stored file of a packet (minus its index), or to the    *)
(* link file of its name (minus the size of the pool, minus its index): the     *)
(* link was replaced by something that is not a link to a packet of that name.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

None == 0
SumF(F(_), S) == FoldSet(LAMBDA x, a : a + F(x), 0, S)
\* ---- by history
FileHit(pool, x) == IF x < 0 /\ -x <= Len(pool) THEN -x ELSE 0      \* the packet whose file is damaged
LinkHit(pool, x) == IF x < -Len(pool) THEN -x - Len(pool) ELSE 0    \* the packet whose name's link is replaced
PutOnly(puts) == SelectSeq(puts, LAMBDA x : x > 0)
StoredWith(pool, puts, h) == {i \in DOMAIN puts : /\ puts[i] > 0 /\ pool[puts[i]].h = h
                                                  /\ \A j \in DOMAIN puts : (j > i /\ FileHit(pool, puts[j]) > 0) => pool[FileHit(pool, puts[j])].h # h}
\* fetch by hash: a set of acceptable answers (packets with one hash are equal), {None}: refused
GetByHash(pool, puts, name, h) ==
    LET S == StoredWith(pool, puts, h)
    IN IF S = {} THEN {None}
       ELSE LET p == puts[Max(S)]
            IN IF pool[p].name # <<>> /\ pool[p].name # name THEN {None} ELSE {puts[i] : i \in S}
GetByName(pool, puts, name, linking) ==
    LET S == {i \in DOMAIN puts : puts[i] > 0 /\ name # <<>> /\ pool[puts[i]].name = name}
    IN IF ~linking \/ S = {} THEN {None}
       ELSE IF \E j \in DOMAIN puts : j > Max(S) /\ LinkHit(pool, puts[j]) > 0 /\ pool[LinkHit(pool, puts[j])].name = name THEN {None}
       ELSE IF StoredWith(pool, puts, pool[puts[Max(S)]].h) = {} THEN {None} ELSE {puts[Max(S)]}
Distinct(pool, puts) == {i \in DOMAIN puts : \A j \in 1..(i-1) : pool[puts[j]].h # pool[puts[i]].h}
Totals(pool, hist) ==
    LET puts == PutOnly(hist)
        D == Distinct(pool, puts)
        L(i) == pool[puts[i]].len
        M == {i \in D : pool[puts[i]].man}
    IN [bp |-> SumF(L, DOMAIN puts), bh |-> SumF(L, D), n |-> Cardinality(D),
        cm |-> Cardinality(M), cd |-> Cardinality(D \ M), bm |-> SumF(L, M), bd |-> SumF(L, D \ M)]

---------------------------------------------------------------------------
\* ---- by tables
Pool == << [h |-> "p", name |-> <<"A">>, len |-> 3, man |-> FALSE], [h |-> "q", name |-> <<"A">>, len |-> 5, man |-> TRUE],
           [h |-> "r", name |-> <<"B">>, len |-> 7, man |-> TRUE], [h |-> "s", name |-> <<>>, len |-> 11, man |-> FALSE],
           [h |-> "t", name |-> <<>>, len |-> 13, man |-> TRUE] >>
CONSTANTS MaxPuts, CheckName, \* are names compared
          CheckLink,          \* is the name of what a link leads to compared
          KeepFile            \* TRUE: a file that exists already is not written again (a bad idea)
VARIABLES puts,
          byhash,             \* the files: hash -> packet, or 0 (damaged)
          links,              \* the link files: name -> hash
          seen, cnt           \* what the writer remembers, and its counters
vars == <<puts, byhash, links, seen, cnt>>
Init == /\ puts = <<>> /\ byhash = <<>> /\ links = <<>> /\ seen = {}
        /\ cnt = [bp |-> 0, bh |-> 0, n |-> 0, cm |-> 0, cd |-> 0, bm |-> 0, bd |-> 0]
Put(x) == LET p == Pool[x]
              new == p.h \notin seen
              a == IF new THEN p.len ELSE 0
              c == IF new THEN 1 ELSE 0
          IN /\ puts' = Append(puts, x)
             /\ byhash' = IF KeepFile /\ p.h \in DOMAIN byhash THEN byhash ELSE (p.h :> x) @@ byhash
             /\ seen' = seen \cup {p.h}
             /\ links' = IF p.name = <<>> THEN links ELSE (p.name :> p.h) @@ links
             /\ cnt' = [bp |-> cnt.bp + p.len, bh |-> cnt.bh + a, n |-> cnt.n + c,
                        cm |-> cnt.cm + (IF p.man THEN c ELSE 0), cd |-> cnt.cd + (IF p.man THEN 0 ELSE c),
                        bm |-> cnt.bm + (IF p.man THEN a ELSE 0), bd |-> cnt.bd + (IF p.man THEN 0 ELSE a)]
Damage(x) == /\ Pool[x].h \in DOMAIN byhash
             /\ puts' = Append(puts, -x)
             /\ byhash' = (Pool[x].h :> 0) @@ byhash
             /\ UNCHANGED <<links, seen, cnt>>
Retarget(x, y) == /\ Pool[x].name # <<>> /\ Pool[x].name \in DOMAIN links /\ Pool[y].name # Pool[x].name
                  /\ puts' = Append(puts, -x - Len(Pool))
                  /\ links' = (Pool[x].name :> Pool[y].h) @@ links
                  /\ UNCHANGED <<byhash, seen, cnt>>
Next == Len(puts) < MaxPuts /\ \E x \in DOMAIN Pool : Put(x) \/ Damage(x) \/ \E y \in DOMAIN Pool : Retarget(x, y)
Spec == Init /\ [][Next]_vars
TableByHash(name, h) == IF h \notin DOMAIN byhash \/ byhash[h] = 0 THEN None
                        ELSE LET p == Pool[byhash[h]] IN IF CheckName /\ p.name # <<>> /\ p.name # name THEN None ELSE byhash[h]
TableByName(name) == IF name \notin DOMAIN links \/ links[name] \notin DOMAIN byhash \/ byhash[links[name]] = 0 THEN None
                     ELSE IF CheckLink /\ Pool[byhash[links[name]]].name # name THEN None ELSE byhash[links[name]]
Names == {<<>>, <<"A">>, <<"B">>, <<"C">>}
Hashes == {Pool[i].h : i \in DOMAIN Pool} \cup {"z"}
Refines == /\ \A n \in Names, h \in Hashes : TableByHash(n, h) \in GetByHash(Pool, puts, n, h)
           /\ \A n \in Names : TableByName(n) \in GetByName(Pool, puts, n, TRUE)
           /\ cnt = Totals(Pool, puts)
\* two tables do not interfere: a put changes what is returned only for its own hash and its own name
Independent == [][\A n \in Names, h \in Hashes :
                    LET l == puts'[Len(puts')]
                        x == IF l > 0 THEN l ELSE Max({FileHit(Pool, l), LinkHit(Pool, l)})
                    IN /\ (h # Pool[x].h \/ LinkHit(Pool, l) > 0) => GetByHash(Pool, puts', n, h) = GetByHash(Pool, puts, n, h)
                       /\ (n # Pool[x].name /\ FileHit(Pool, l) = 0) => GetByName(Pool, puts', n, TRUE) = GetByName(Pool, puts, n, TRUE)]_vars
=============================================================================
