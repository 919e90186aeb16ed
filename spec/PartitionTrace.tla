--------------------------- MODULE PartitionTrace ----------------------------
EXTENDS Partition, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, L, bad
vars == <<ti, l, L, bad>>
T == Traces[ti]
E == T.ev[l]
None == [grid |-> <<>>, local |-> <<>>]
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ L = None
F(p, msg) == IF p THEN {} ELSE {msg}
LayoutEv == LET M == [grid |-> E.grid, local |-> E.local] IN
    F(IF L = None THEN InitLayout(T.cfg.D, T.cfg.mesh, M) ELSE TransformStep(L, M) \/ TransposeStep(L, M), <<"layout path", L, M>>)
    \cup F(E.last => FinalLayout(M), <<"path ends outside grid space", M>>)
\* one domain in the current layout at some scale: what every process reports
DomainEv == LET P == 1..Len(E.ranks) R(r) == E.ranks[r] boxes == [r \in P |-> R(r).el] IN
    F(\A r \in P : \A a \in Dims(boxes[r]) : Interval(boxes[r][a]), "local indices not contiguous")
    \cup F(\A r \in P : Within(E.shape, boxes[r]), "local indices outside the global data")
    \cup F(Cover(E.shape, boxes), "global indices not covered exactly once")
    \cup F(MeshOrder(boxes), "local parts not in mesh order")
    \cup F(\A r \in P : \A a \in Dims(boxes[r]) : L.local[a] => Len(boxes[r][a]) = E.shape[a], "local axis not complete")
    \cup F(\A r \in P : R(r).shape = [a \in Dims(boxes[r]) |-> Len(boxes[r][a])], "local shape differs from local elements")
    \cup F(\A r \in P : R(r).data = R(r).shape, "allocated data differ from local shape")
    \cup F(\A r \in P : \A a \in Dims(boxes[r]) : IF Len(boxes[r][a]) = 0 THEN R(r).sl[a][1] = R(r).sl[a][2]
              ELSE R(r).sl[a] = <<boxes[r][a][1], boxes[r][a][1] + Len(boxes[r][a])>>, "slices differ from local elements")
    \cup F(\A r, q \in P : R(r).byrank[q] = boxes[q], "local elements asked for by rank differ")
    \cup F(\A r, q \in P : R(r).shrank[q] = R(q).shape, "local shape asked for by rank differs")
    \cup F(\A r \in P : \A a \in Dims(boxes[r]) : R(r).bc[a] = IF E.const[a] THEN <<0>> ELSE boxes[r][a], "broadcast elements")
    \cup F(\A r \in P : \A a \in Dims(boxes[r]) : R(r).grid[a] = <<-1>> \/ R(r).grid[a] = boxes[r][a], "local grids or modes differ from local elements")
    \cup (IF ~E.hasgroups THEN {} ELSE
        LET g == [r \in P |-> R(r).groups] IN
           F(NotSplit(g), "a mode group is split between processes")
           \cup F(\A r \in P : PairsKept(boxes[r], E.pairs), "a mode pair is split between processes")
           \cup F(\A r \in P : R(r).groups = R(r).ggroups, "local groups differ from global groups")
           \cup F(\A r \in P : GroupSets(R(r).axg, R(r).gsets), "the slices of a group set are not its elements"))
Next == /\ bad = {} /\ l <= Len(T.ev)
        /\ bad' = IF E.op = "layout" THEN LayoutEv ELSE DomainEv
        /\ L' = IF E.op = "layout" THEN [grid |-> E.grid, local |-> E.local] ELSE L
        /\ l' = l + 1 /\ ti' = ti
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
