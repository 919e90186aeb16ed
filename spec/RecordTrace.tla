----------------------------- MODULE RecordTrace -----------------------------
(* Validates output files read back against what was asked for and what the tasks denoted when written. *)
EXTENDS Record, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, bad
vars == <<ti, l, bad>>
T == Traces[ti]
E == T.ev[l]
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {}
F(p, msg) == IF p THEN {} ELSE {msg}
\* a task's dataset: E.axes, E.how = [grid, scale] as asked, and what the file says
Dataset == LET shape == [a \in DOMAIN E.axes |-> AxisSize(E.axes[a], E.how[a].grid, E.how[a].scale)] D == DOMAIN E.axes IN
    F(E.file.shape[1] = E.records, "number of records")
    \cup F(SubSeq(E.file.shape, 2, Len(E.file.shape)) = E.tensor \o E.spatial, "shape of the data")
    \cup F(\A a \in D : (E.how[a].grid \/ E.axes[a].constant) => E.spatial[a] = shape[a], "size of an axis")
    \cup F(E.file.labels = <<"t">> \o [i \in DOMAIN E.tensor |-> ""] \o [a \in D |-> Label(E.axes[a], E.how[a].grid)], "dimension names")
    \cup F(E.file.grid = [a \in D |-> E.how[a].grid], "grid-space flags")
    \cup F(E.file.constant = [a \in D |-> E.axes[a].constant], "constant flags")
    \cup F(E.file.scales = [a \in D |-> (E.how[a].scale[1] * 100) \div E.how[a].scale[2]], "scales")
    \cup F(\A a \in D : E.axes[a].constant \/ ~E.how[a].grid \/ Len(E.coords[a]) = E.spatial[a], "points of a grid axis")
Rec == LET nc == Prod(E.tensor, Len(E.tensor)) IN
    F(Len(E.data) = nc * Size(E.spatial), "amount of data")
    \cup (IF Len(E.data) # nc * Size(E.spatial) THEN {} ELSE
       F(Covered(E.spatial, E.parts), "parts")
       \cup F(Assembled(E.data, E.spatial, nc, E.parts, 2), "recorded data")
       \cup F(E.fn = <<>> \/ Denotes(E.data, E.spatial, E.fn, E.coords, 150), "data at the recorded coordinates")
       \cup F(E.modes = <<>> \/ Supported(E.data, E.spatial, nc, E.modes, E.orders), "data at the recorded mode numbers"))
Times3 == F(E.file = E.asked, "recorded iterations, times or write numbers")
Next == /\ bad = {} /\ l <= Len(T.ev) /\ l' = l + 1 /\ ti' = ti
        /\ bad' = CASE E.op = "dataset" -> Dataset [] E.op = "record" -> Rec [] E.op = "times" -> Times3
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
