----------------------------- MODULE FlicPublish -----------------------------
(***************************************************************************)
(* The design of a publication, as a state machine: n chunks are written in  *)
(* file order, then the manifests are built from the tail of the file, each   *)
(* written as soon as its children are, then the root. The publisher may      *)
(* stop at any moment (the writer fails).                                      *)
(*                                                                             *)
(* A stored object is [k: "data", c: chunk] or [k: "man" | "root", p: the      *)
(* indices of the stored objects it points to, id: manifest number].           *)
(* frames: the manifests under construction, the innermost last:               *)
(*   [lev, rm: built on a right-most child, kids: children so far (indices),   *)
(*    res: data objects reserved for the frame's own direct pointers]          *)
(***************************************************************************)
EXTENDS FlicPlan, TLC

CONSTANTS MaxN, MaxP

VARIABLES n, d, m, store, phase, frames, head, tail, top, lev, nextid
vars == <<n, d, m, store, phase, frames, head, tail, top, lev, nextid>>

P == d + m
Planned == Height(n, d, m)

\* manifest numbers: level by level from the top, right to left inside a level; the number of the level's last manifest
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE SumPow(_, _)
SumPow(b, e) == IF e < 0 THEN 0 ELSE Pow(b, e) + SumPow(b, e - 1)
LastId(depth) == SumPow(m, depth) - 1

Init == /\ n \in 1..MaxN
        /\ \E q \in 2..MaxP : \E s \in BestSplits(n, q) : d = s.d /\ m = s.m
        /\ store = <<>> /\ phase = "data" /\ frames = <<>>
        /\ head = 0 /\ tail = n /\ top = 0 /\ lev = 0
        /\ nextid = [l \in 0..Height(n, d, m) |-> LastId(Height(n, d, m) - l)]

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf2(a, b) == IF a < b THEN a ELSE b
Chunks(a, b) == [x \in 1..(b - a) |-> a + x]      \* stored at index chunk + 1: data objects come first
PutData == /\ phase = "data" /\ Len(store) < n
           /\ store' = Append(store, [k |-> "data", c |-> Len(store), p |-> <<>>, id |-> -1])
           /\ phase' = IF Len(store) + 1 = n THEN "tree" ELSE "data"
           /\ UNCHANGED <<n, d, m, frames, head, tail, top, lev, nextid>>

PutManifest(ptrs, l) == /\ store' = Append(store, [k |-> "man", c |-> -1, p |-> ptrs, id |-> nextid[l]])
                        /\ nextid' = [nextid EXCEPT ![l] = @ - 1]
Fin == Len(frames)
\* what becomes of a finished child: the frame's, or the tree so far
Deliver(i) == IF Fin > 0 THEN frames' = [frames EXCEPT ![Fin].kids = <<i>> \o @] /\ UNCHANGED top
              ELSE top' = i /\ UNCHANGED frames
Room(f) == Len(f.kids) < m /\ head < tail
Want == IF Fin = 0 THEN TRUE ELSE Room(frames[Fin])      \* a child is to be built next
ChildLev == IF Fin = 0 THEN lev ELSE frames[Fin].lev - 1

\* a leaf manifest: at the start, or when what is left fits, or at the bottom
PutLeaf ==
    /\ phase = "tree"
    /\ \/ Fin = 0 /\ top = 0
       \/ Fin > 0 /\ Want /\ (ChildLev = 0 \/ tail - head <= P)
    /\ LET s == MaxOf(head, tail - P)
       IN /\ PutManifest(Chunks(s, tail), ChildLev)
          /\ tail' = s
    /\ Deliver(Len(store) + 1)
    /\ UNCHANGED <<n, d, m, phase, head, lev>>
\* the tree so far becomes the right-most child of a taller one
Grow ==
    /\ phase = "tree" /\ Fin = 0 /\ top # 0 /\ head < tail
    /\ LET r == MinOf2(d, tail - head)
       IN /\ frames' = <<[lev |-> lev + 1, kids |-> <<top>>, res |-> r]>>
          /\ head' = head + r
    /\ lev' = lev + 1
    /\ UNCHANGED <<n, d, m, store, phase, tail, top, nextid>>
\* an inner manifest below the current one
Descend ==
    /\ phase = "tree" /\ Fin > 0 /\ Want /\ ChildLev > 0 /\ tail - head > P
    /\ LET r == MinOf2(d, tail - head)
       IN /\ frames' = Append(frames, [lev |-> ChildLev, kids |-> <<>>, res |-> r])
          /\ head' = head + r
    /\ UNCHANGED <<n, d, m, store, phase, tail, top, lev, nextid>>
\* all children are there: take the direct pointers, and write the manifest
PutInner ==
    /\ phase = "tree" /\ Fin > 0 /\ ~Want
    /\ LET f == frames[Fin]
           h == head - f.res
           s == MaxOf(h, tail - d)
           ptrs == Chunks(s, tail) \o f.kids
           rest == SubSeq(frames, 1, Fin - 1)
       IN /\ PutManifest(ptrs, f.lev)
          /\ head' = h /\ tail' = s
          /\ IF rest = <<>> THEN frames' = <<>> /\ top' = Len(store) + 1
             ELSE frames' = [rest EXCEPT ![Len(rest)].kids = <<Len(store) + 1>> \o @] /\ UNCHANGED top
    /\ UNCHANGED <<n, d, m, phase, lev>>
PutRoot ==
    /\ phase = "tree" /\ Fin = 0 /\ top # 0 /\ head = tail
    /\ store' = Append(store, [k |-> "root", c |-> -1, p |-> <<top>>, id |-> -1])
    /\ phase' = "done"
    /\ UNCHANGED <<n, d, m, frames, head, tail, top, lev, nextid>>
Crash == /\ phase \in {"data", "tree"} /\ phase' = "crashed"
         /\ UNCHANGED <<n, d, m, store, frames, head, tail, top, lev, nextid>>
Next == PutData \/ PutLeaf \/ Grow \/ Descend \/ PutInner \/ PutRoot \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(PutData \/ PutLeaf \/ Grow \/ Descend \/ PutInner \/ PutRoot)

---------------------------------------------------------------------------
Idxs == 1..Len(store)
Ptrs(i) == store[i].p
Mans == {i \in Idxs : store[i].k # "data"}
Finished == phase = "done"
Root == Len(store)

\* P07
NoDangling == \A i \in Idxs : \A k \in DOMAIN Ptrs(i) : Ptrs(i)[k] \in 1..(i-1)
RootLast == \A i \in Idxs : store[i].k = "root" => i = Len(store) /\ Finished
\* P02
Times(i) == Cardinality({<<j, k>> \in Idxs \X (1..MaxP) : k \in DOMAIN Ptrs(j) /\ Ptrs(j)[k] = i})
AtMostOnce == \A i \in Idxs : Times(i) <= 1
ExactlyOnce == Finished => \A i \in Idxs : Times(i) = IF i = Root THEN 0 ELSE 1
RECURSIVE Walk(_)
Walk(i) == IF store[i].k = "data" THEN <<store[i].c>>
           ELSE FoldLeft(LAMBDA a, k : a \o Walk(Ptrs(i)[k]), <<>>, [k \in DOMAIN Ptrs(i) |-> k])
Preorder == Finished => Walk(Root) = [c \in 1..n |-> c - 1]
DirectFirst == \A i \in Mans : \A k \in 1..(Len(Ptrs(i)) - 1) :
                  store[Ptrs(i)[k]].k # "data" => store[Ptrs(i)[k+1]].k # "data"
\* P03, P17
Indirect(i) == Cardinality({k \in DOMAIN Ptrs(i) : store[Ptrs(i)[k]].k # "data"})
Degree == \A i \in Mans : Len(Ptrs(i)) <= P /\ (store[i].k = "man" /\ Indirect(i) > 0) => (Indirect(i) <= m /\ Len(Ptrs(i)) - Indirect(i) <= d)
RECURSIVE HeightOf(_)
HeightOf(i) == IF store[i].k = "data" \/ Indirect(i) = 0 THEN 0
               ELSE 1 + (LET S == {HeightOf(Ptrs(i)[k]) : k \in {x \in DOMAIN Ptrs(i) : store[Ptrs(i)[x]].k # "data"}}
                         IN CHOOSE x \in S : \A y \in S : x >= y)
PlannedHeight == Finished => HeightOf(top) = Planned
\* P06: the children of a manifest have consecutive numbers, no number is used twice, the top one is 0
UniqueIds == \A i, j \in {x \in Idxs : store[x].k = "man"} : i # j => store[i].id # store[j].id
Consecutive == \A i \in Mans : \A k \in 1..(Len(Ptrs(i)) - 1) :
                  store[Ptrs(i)[k]].k = "man" => store[Ptrs(i)[k+1]].id = store[Ptrs(i)[k]].id + 1
TopIsZero == Finished => store[top].id = 0
IdsNatural == \A i \in Idxs : store[i].k = "man" => store[i].id >= 0
Finishes == <>(phase \in {"done", "crashed"})
=============================================================================
