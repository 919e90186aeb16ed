----------------------------- MODULE PartitionMC -----------------------------
(* Design check: the block distribution by chunks (a model of what the code documents) satisfies the
   partition laws for every size, chunk size and mesh in the bounds, and the layout path exists,
   is unique in length and ends in grid space for every mesh.                                      *)
EXTENDS Partition, TLC
CONSTANTS MaxN, MaxP, D
VARIABLES L, path, mesh
CeilDiv(a, b) == (a + b - 1) \div b
Block(n, c, p, k) == LET nc == CeilDiv(n, c) b == CeilDiv(nc, p)
                         s == IF b*k < nc THEN b*k ELSE nc
                         e == IF b*(k+1) < nc THEN b*(k+1) ELSE nc
                     IN [i \in 1..(e-s)*c |-> s*c + i - 1]
ASSUME \A c \in {1, 2} : \A m \in 1..MaxN : \A p \in 1..MaxP :
    LET n == c * m boxes == [r \in 1..p |-> <<Block(n, c, p, r-1)>>] IN
        /\ Cover(<<n>>, boxes) /\ MeshOrder(boxes)
        /\ \A r \in 1..p : Interval(boxes[r][1]) /\ Within(<<n>>, boxes[r]) /\ PairsKept(boxes[r], <<c = 2>>)
Meshes == UNION {[1..k -> {1, 2}] : k \in 0..D-1}
Init == /\ mesh \in Meshes
        /\ L = [grid |-> [a \in 1..D |-> FALSE], local |-> [a \in 1..D |-> a > Len(mesh) \/ (a <= Len(mesh) /\ mesh[a] = 1)]]
        /\ path = 0
Next == /\ \E a \in 1..D, k \in {"f", "t"} :
              LET M == IF k = "f" THEN [L EXCEPT !.grid[a] = TRUE] ELSE [L EXCEPT !.local[a] = TRUE, !.local[IF a < D THEN a+1 ELSE a] = FALSE] IN
              (TransformStep(L, M) \/ (TransposeStep(L, M) /\ ~L.grid[a] /\ L.grid[a+1])) /\ L' = M
        /\ path' = path + 1 /\ mesh' = mesh
R == Cardinality({a \in 1..Len(mesh) : mesh[a] > 1})
LocalCount == Cardinality({a \in 1..D : L.local[a]}) = D - R
Bounded == FinalLayout(L) => path >= D
Reaches == <>FinalLayout(L)
Spec == Init /\ [][Next]_<<L, path, mesh>> /\ WF_<<L, path, mesh>>(\E a \in 1..D : Next /\ L'.grid # L.grid) /\ WF_<<L, path, mesh>>(Next)
=============================================================================
