-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* Names as values on a heap: every operation adds a name, none changes one.  *)
(*   op: [op: "uri" | "build", comps] | [op: "append", i, c] |                *)
(*       [op: "chunk" | "manifest", i, n: Num] | [op: "parse", i]             *)
(***************************************************************************)
EXTENDS Wire

ChunkComp(n) == [t |-> 5, v |-> NumV(n)]
ManifestComp(n) == [t |-> 16, v |-> NumV(n)]
Result(heap, op) ==
    CASE op.op \in {"uri", "build"} -> op.comps
      [] op.op = "append" -> Append(heap[op.i], op.c)
      [] op.op = "chunk" -> Append(heap[op.i], ChunkComp(op.n))
      [] op.op = "manifest" -> Append(heap[op.i], ManifestComp(op.n))
      [] op.op = "parse" -> heap[op.i]
Heap(ops) == FoldLeft(LAMBDA h, op : TLCEval(Append(h, Result(h, op))), <<>>, ops)

---------------------------------------------------------------------------
CONSTANT MaxOps
VARIABLE heap
C(x) == [t |-> 1, v |-> <<x>>]
Init == heap = <<>>
Ops == {[op |-> "uri", comps |-> <<C(97), C(98)>>], [op |-> "build", comps |-> <<>>]}
   \cup {[op |-> "append", i |-> i, c |-> C(99)] : i \in DOMAIN heap}
   \cup {[op |-> k, i |-> i, n |-> n] : k \in {"chunk", "manifest"}, i \in DOMAIN heap, n \in {<<0>>, <<1, 0>>}}
   \cup {[op |-> "parse", i |-> i] : i \in DOMAIN heap}
Next == Len(heap) < MaxOps /\ \E op \in Ops : heap' = Append(heap, Result(heap, op))
Spec == Init /\ [][Next]_heap
\* the wire format keeps what the name is
Faithful == \A i \in DOMAIN heap :
               LET b == EncName(heap[i])
               IN /\ GName(b, 5, Len(b)) = 2 /\ DName(b, 5, Len(b)) = heap[i]
                  /\ \A j \in DOMAIN heap : (EncName(heap[j]) = b) = (heap[j] = heap[i])
Unchanged == [][\A i \in DOMAIN heap : heap'[i] = heap[i]]_heap
=============================================================================
