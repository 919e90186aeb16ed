------------------------------ MODULE Partition ------------------------------
(* How a distributor lays global data out over a process mesh.

   A layout is a pair of flag vectors: is axis a in grid space, is axis a local.  The layouts of a
   distributor form a path: TransformStep puts one local axis into grid space, TransposeStep moves
   locality from one axis to its lower neighbour; the path starts in full coefficient space with the
   first axes distributed over the mesh and ends in full grid space.

   Within a layout, process r holds a box of global indices; Exactly once / contiguous / in mesh order
   are stated over the index sets, not over a block-size formula, so any partition with the property
   is accepted.                                                                                     *)
EXTENDS Integers, Sequences, FiniteSets

Dims(x) == 1..Len(x)
\* ---- layout path
InitLayout(D, mesh, L) ==
    /\ \A a \in 1..D : ~L.grid[a]
    /\ \A a \in 1..D : L.local[a] = (a > Len(mesh) \/ (a <= Len(mesh) /\ mesh[a] = 1))
TransformStep(L, M) ==
    \E a \in Dims(L.grid) : /\ L.local[a] /\ ~L.grid[a] /\ M.local = L.local
                            /\ M.grid = [L.grid EXCEPT ![a] = TRUE]
TransposeStep(L, M) ==
    \E a \in 1..Len(L.grid)-1 : /\ ~L.local[a] /\ L.local[a+1] /\ M.grid = L.grid
                                /\ M.local = [L.local EXCEPT ![a] = TRUE, ![a+1] = FALSE]
FinalLayout(L) == \A a \in Dims(L.grid) : L.grid[a]

\* ---- boxes
Interval(s) == \A i \in 1..Len(s)-1 : s[i+1] = s[i] + 1
SetOf(s) == {s[i] : i \in 1..Len(s)}
Empty(box) == \E a \in Dims(box) : Len(box[a]) = 0
RECURSIVE Indices(_)
Indices(shape) == IF shape = <<>> THEN {<<>>}
    ELSE {<<i>> \o t : i \in 0..Head(shape)-1, t \in Indices(Tail(shape))}
Holds(box, g) == \A a \in Dims(box) : g[a] \in SetOf(box[a])
Cover(shape, boxes) == \A g \in Indices(shape) : Cardinality({r \in Dims(boxes) : Holds(boxes[r], g)}) = 1
Within(shape, box) == \A a \in Dims(box) : SetOf(box[a]) \subseteq 0..shape[a]-1
RECURSIVE LexLess(_, _)
LexLess(x, y) == IF x = <<>> THEN FALSE ELSE Head(x) < Head(y) \/ (Head(x) = Head(y) /\ LexLess(Tail(x), Tail(y)))
Start(box) == [a \in Dims(box) |-> box[a][1]]
MeshOrder(boxes) == \A p, q \in Dims(boxes) : (p < q /\ ~Empty(boxes[p]) /\ ~Empty(boxes[q])) => LexLess(Start(boxes[p]), Start(boxes[q]))
\* a mode group is the set of elements sharing an id; 0 marks an element outside the basis
NotSplit(groups) == \A p, q \in Dims(groups) : p # q => (SetOf(groups[p]) \cap SetOf(groups[q])) \ {0} = {}
\* axg[a][e]: group along axis a of local element e (-99: outside the basis); gsets: for each group set q (-77: any group
\* along that axis) the elements of its slices. The slices of q hold exactly the elements of q (and elements outside the
\* basis), each once, and every element of the basis lies in exactly one group set.
InSet(axg, q, e) == \A a \in Dims(axg) : axg[a][e+1] # -99 /\ (q[a] = -77 \/ q[a] = axg[a][e+1])
GroupSets(axg, gsets) == axg = <<>> \/
    LET E == 0..Len(axg[1])-1 IN
       /\ \A k \in Dims(gsets) : LET g == gsets[k] U == UNION {SetOf(g.el[j]) : j \in Dims(g.el)} IN
            /\ {e \in U : axg[1][e+1] # -99} = {e \in E : InSet(axg, g.q, e)}
            /\ \A i, j \in Dims(g.el) : i # j => SetOf(g.el[i]) \cap SetOf(g.el[j]) = {}
       /\ \A e \in E : axg[1][e+1] # -99 => Cardinality({k \in Dims(gsets) : InSet(axg, gsets[k].q, e)}) = 1
\* cosine/sine (or real/imaginary) pairs 2k, 2k+1 of the axes that have them stay together
PairsKept(box, pairs) == \A a \in Dims(box) : pairs[a] =>
    \A i \in SetOf(box[a]) : (i - (i % 2)) \in SetOf(box[a]) /\ (i - (i % 2) + 1) \in SetOf(box[a])
=============================================================================
