----------------------------- MODULE RandArrTrace ----------------------------
EXTENDS RandArr, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, bad
vars == <<ti, l, bad>>
T == Traces[ti]
E == T.ev[l]
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {}
Full(s) == [a \in 1..Len(s) |-> IF a <= Len(E.slices) THEN E.slices[a] ELSE <<999, 999, 999>>]
Lists == [a \in 1..Len(E.shape) |-> SliceList(Resolve(Full(E.shape)[a], E.shape[a]))]
Get == (IF E.outshape # [a \in 1..Len(E.shape) |-> Len(Lists[a])] THEN {<<"shape of the block", E.outshape>>} ELSE {})
       \cup (IF E.got # Draws(Lists, E.shape) THEN {<<"block", E.got, "expected", Draws(Lists, E.shape)>>} ELSE {})
\* what each process holds after a fill: its local part of the one global array
FillShape == E.comps \o E.shape \o (IF E.complex THEN <<2>> ELSE <<>>)
FillLists(r) == [i \in 1..Len(E.comps) |-> Upto(E.comps[i])] \o E.ranks[r].el \o (IF E.complex THEN <<<<0, 1>>>> ELSE <<>>)
Fill == {<<"local random data", r, E.ranks[r].got>> : r \in {q \in 1..Len(E.ranks) : E.ranks[q].got # Draws(FillLists(q), FillShape)}}
        \cup {<<"layout or scales", r>> : r \in {q \in 1..Len(E.ranks) : ~E.ranks[q].placed}}
\* data of another seed
Other == IF E.common = 0 THEN {} ELSE {<<"values shared with another seed", E.common>>}
Next == /\ bad = {} /\ l <= Len(T.ev)
        /\ bad' = CASE E.op = "get" -> Get [] E.op = "fill" -> Fill [] E.op = "other" -> Other
        /\ l' = l + 1 /\ ti' = ti
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
