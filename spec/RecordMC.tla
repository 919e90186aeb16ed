------------------------------ MODULE RecordMC -------------------------------
(* Gathering a distributed array: any assignment of blocks to processes, written in any order, gives the global array;
   the record is complete exactly when every owner has written.                                                      *)
EXTENDS Record
CONSTANTS NX, NY, PX, PY
VARIABLES cuts, file, wrote
vars == <<cuts, file, wrote>>
Cuts(n, p) == {c \in [0..p -> 0..n] : c[0] = 0 /\ c[p] = n /\ \A i \in 1..p : c[i - 1] <= c[i]}
G(x, y) == 10 * x + y
Shape == <<NX, NY>>
Init == cuts \in Cuts(NX, PX) \X Cuts(NY, PY) /\ wrote = {} /\ file = [i \in 1..(NX * NY) |-> <<-1, 0>>]
Rows(p) == [i \in 1..(cuts[1][p[1]] - cuts[1][p[1] - 1]) |-> cuts[1][p[1] - 1] + i - 1]
Cols(p) == [i \in 1..(cuts[2][p[2]] - cuts[2][p[2] - 1]) |-> cuts[2][p[2] - 1] + i - 1]
Part(p) == LET ls == <<Len(Rows(p)), Len(Cols(p))>> IN
           [el |-> <<Rows(p), Cols(p)>>, data |-> [i \in 1..Size(ls) |-> <<G(Rows(p)[Index(ls, i, 1)], Cols(p)[Index(ls, i, 2)]), 0>>]]
Write(p) == /\ p \notin wrote /\ wrote' = wrote \cup {p} /\ cuts' = cuts
            /\ file' = LET q == Part(p) ls == <<Len(q.el[1]), Len(q.el[2])>> IN
                       [g \in 1..(NX * NY) |-> IF \E i \in 1..Size(ls) : g = Position(Shape, <<q.el[1][Index(ls, i, 1)] + 1, q.el[2][Index(ls, i, 2)] + 1>>)
                                               THEN LET i == CHOOSE i \in 1..Size(ls) : g = Position(Shape, <<q.el[1][Index(ls, i, 1)] + 1, q.el[2][Index(ls, i, 2)] + 1>>) IN q.data[i]
                                               ELSE file[g]]
P == (1..PX) \X (1..PY)
Next == \E p \in P : Write(p)
Spec == Init /\ [][Next]_vars
PartSeq == [i \in 1..(PX * PY) |-> Part(<<((i - 1) \div PY) + 1, ((i - 1) % PY) + 1>>)]
Whole == file = [g \in 1..(NX * NY) |-> <<G(Index(Shape, g, 1) - 1, Index(Shape, g, 2) - 1), 0>>]
Right == /\ Covered(Shape, PartSeq)
         /\ wrote = P => Whole /\ Assembled(file, Shape, 1, PartSeq, 0)
         /\ (Whole <=> Assembled(file, Shape, 1, PartSeq, 0))
\* arithmetic of the model
ASSUME \A x \in {-37, -5, 0, 8, 41} : \A y \in {-3, 0, 2, 46} : Abs(Mul(x * 1000, y * 1000) - x * y * 100) <= 10
ASSUME GridSize(8, <<3, 2>>) = 12 /\ GridSize(5, <<3, 2>>) = 8 /\ GridSize(6, <<1, 1>>) = 6
=============================================================================
