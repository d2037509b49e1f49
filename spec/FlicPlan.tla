------------------------------ MODULE FlicPlan ------------------------------
(***************************************************************************)
(* The plan of a manifest tree: n data objects, manifests with P pointers,   *)
(* of which an inner manifest uses d for data objects and m for manifests.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Inf == 2000000000
CeilDiv(a, b) == (a + b - 1) \div b

\* data objects that k inner manifests of split (d, m), and the leaf manifests they point to, have room for:
\* an inner manifest takes the place of a leaf (P pointers), and has d data objects and m leaves of P
Capacity(k, d, m) == (d + m) + k * (d + m * (d + m) - (d + m))
Gain(d, m) == d + m * (d + m) - (d + m)

\* the smallest number of inner manifests with room for n
Inner(n, d, m) == IF n <= d + m THEN 0 ELSE IF Gain(d, m) <= 0 THEN Inf ELSE CeilDiv(n - (d + m), Gain(d, m))

\* the smallest height with room for n
RECURSIVE HeightR(_, _, _, _, _)
HeightR(n, d, m, h, c) == IF c >= n THEN h
                          ELSE IF d + m * c <= c THEN Inf ELSE HeightR(n, d, m, h + 1, d + m * c)
Height(n, d, m) == IF m = 1 THEN (IF n <= d + 1 THEN 0 ELSE CeilDiv(n - (d + 1), d))      \* a chain (in closed form)
                   ELSE HeightR(n, d, m, 0, d + m)

Leaves(n, k, d, m) == IF n <= k * d THEN 0 ELSE CeilDiv(n - k * d, d + m)
Waste(n, k, d, m) == Capacity(k, d, m) - n

\* the splits with at least one data pointer
Splits(P) == {[d |-> P - m, m |-> m] : m \in 0..(P-1)}
\* the least value of f(m) over the splits m \in 0..(P-1)
Least(f(_), P) == FoldLeft(LAMBDA a, x : LET v == f(x - 1) IN IF v < a THEN v ELSE a, Inf, [x \in 1..P |-> x])
MinInner(n, P) == Least(LAMBDA m : Inner(n, P - m, m), P)
MinHeight(n, P) == Least(LAMBDA m : Height(n, P - m, m), P)
\* among the splits with k inner manifests
LeastWaste(n, P, k) == Least(LAMBDA m : IF Inner(n, P - m, m) = k THEN Waste(n, k, P - m, m) ELSE Inf, P)
MinWaste(n, P) == LeastWaste(n, P, MinInner(n, P))
\* the best splits: what a planner may choose
Best(s, n, P) == /\ Inner(n, s.d, s.m) = MinInner(n, P)
                 /\ Height(n, s.d, s.m) = MinHeight(n, P)
                 /\ Waste(n, Inner(n, s.d, s.m), s.d, s.m) = MinWaste(n, P)
BestSplits(n, P) == {s \in Splits(P) : Best(s, n, P)}
=============================================================================
