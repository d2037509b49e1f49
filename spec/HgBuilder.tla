------------------------------ MODULE HgBuilder ------------------------------
(***************************************************************************)
(* The hash group builder (one, or the pair used for two hash groups) as a  *)
(* state machine. A response is what a user observes of one call.           *)
(*   pair: 0 one HashGroupBuilder, 1 a pair that shares one builder, 2 a    *)
(*   pair of two builders.  max: -1 is no limit.                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

Builder0(maxd, maxi) == [ptrs |-> <<>>, dc |-> 0, ic |-> 0, ds |-> 0, is |-> 0, maxd |-> maxd, maxi |-> maxi]
DFull(b) == b.maxd >= 0 /\ b.dc >= b.maxd
IFull(b) == b.maxi >= 0 /\ b.ic >= b.maxi
SizeOf(o) == IF o = <<>> THEN 0 ELSE o[1]
\* op: [k: "ad" | "pd" | "ai" | "pi", h, size: opt]
AddTo(b, op) ==
    LET direct == op.k \in {"ad", "pd"}
        ptrs == IF op.k \in {"ad", "ai"} THEN Append(b.ptrs, op.h) ELSE <<op.h>> \o b.ptrs
    IN IF direct THEN [b EXCEPT !.ptrs = ptrs, !.dc = @ + 1, !.ds = @ + SizeOf(op.size)]
       ELSE [b EXCEPT !.ptrs = ptrs, !.ic = @ + 1, !.is = @ + SizeOf(op.size)]
Refused(b, op) == IF op.k \in {"ad", "pd"} THEN DFull(b) ELSE IFull(b)

\* the whole: a sequence of one or two builders, direct first
Start(pair, maxd, maxi) == IF pair = 2 THEN <<Builder0(maxd, 0), Builder0(0, maxi)>> ELSE <<Builder0(maxd, maxi)>>
DirectOf(s) == 1
IndirectOf(s) == Len(s)
Target(s, op) == IF op.k \in {"ad", "pd"} THEN DirectOf(s) ELSE IndirectOf(s)
After(s, op) == IF Refused(s[Target(s, op)], op) THEN s ELSE [s EXCEPT ![Target(s, op)] = AddTo(@, op)]
Obs(s) == LET d == s[DirectOf(s)]
              i == s[IndirectOf(s)]
          IN [dc |-> d.dc, ic |-> i.ic, ds |-> d.ds, is |-> i.is, df |-> DFull(d), if |-> IFull(i)]
\* the hash group of one builder
Group(b, nc, ss, leaf, sub) ==
    [gd |-> IF nc = <<>> /\ ss = <<>> /\ ~leaf /\ ~sub THEN <<>>
            ELSE <<[nc |-> nc, ss |-> ss, ls |-> IF leaf THEN <<b.ds>> ELSE <<>>, sts |-> IF sub THEN <<b.ds + b.is>> ELSE <<>>]>>,
     ptrs |-> b.ptrs]

---------------------------------------------------------------------------
\* The state machine by itself
CONSTANT MaxOps
Limits == {-1, 0, 1, 2}
VARIABLES pair, s, n, log
vars == <<pair, s, n, log>>
Kinds == {"ad", "pd", "ai", "pi"}
Init == /\ pair \in 0..2
        /\ \E d \in Limits, i \in Limits : s = Start(pair, d, i)
        /\ n = 0 /\ log = <<>>
\* (a history ends after MaxOps calls)
Next == /\ n < MaxOps
        /\ n' = n + 1 /\ pair' = pair
        /\ \E k \in Kinds, z \in {<<>>, <<0>>, <<5>>} :
             LET op == [k |-> k, h |-> n, size |-> z]
             IN /\ s' = After(s, op)
                /\ log' = IF Refused(s[Target(s, op)], op) THEN log ELSE Append(log, op)
Spec == Init /\ [][Next]_vars
\* what the builders hold is what was accepted
SumIf(l, ks) == LET S[i \in 0..Len(l)] == IF i = 0 THEN 0 ELSE S[i-1] + (IF l[i].k \in ks THEN SizeOf(l[i].size) ELSE 0) IN S[Len(l)]
CountIf(l, ks) == LET S[i \in 0..Len(l)] == IF i = 0 THEN 0 ELSE S[i-1] + (IF l[i].k \in ks THEN 1 ELSE 0) IN S[Len(l)]
RangeOf(q) == {q[i] : i \in DOMAIN q}
Inv == LET o == Obs(s)
           all == IF Len(s) = 1 THEN s[1].ptrs ELSE s[1].ptrs \o s[2].ptrs
       IN /\ o.dc = CountIf(log, {"ad", "pd"}) /\ o.ic = CountIf(log, {"ai", "pi"})
          /\ o.ds = SumIf(log, {"ad", "pd"}) /\ o.is = SumIf(log, {"ai", "pi"})
          /\ Len(all) = Len(log) /\ RangeOf(all) = {log[i].h : i \in DOMAIN log}
          /\ \A b \in {s[i] : i \in DOMAIN s} : (b.maxd >= 0 => b.dc <= b.maxd) /\ (b.maxi >= 0 => b.ic <= b.maxi)
          \* prepended pointers are in reverse order, appended ones in order
          /\ \A i \in DOMAIN all, j \in DOMAIN all :
               LET x == CHOOSE q \in RangeOf(log) : q.h = all[i]
                   y == CHOOSE q \in RangeOf(log) : q.h = all[j]
               IN (Len(s) = 1 \/ Target(s, x) = Target(s, y)) /\ x.h < y.h
                    => IF y.k \in {"ad", "ai"} THEN i < j ELSE j < i
=============================================================================
