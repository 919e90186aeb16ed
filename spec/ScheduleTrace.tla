---------------------------- MODULE ScheduleTrace ----------------------------
EXTENDS Schedule, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, st, bad
vars == <<ti, l, st, bad>>
T == Traces[ti]
Hs == T.cfg.handlers
Idx == 1..Len(Hs)
InGroup(i, g) == Hs[i].group = g
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {}
        /\ st = [i \in 1..Len(Traces[ti].cfg.handlers) |-> Fresh]
E == T.ev[l]
P(i) == [iter |-> E.iter, t |-> E.t, dt |-> E.dt, wall |-> E.wall, cust |-> E.cust[i]]
\* number of times each handler must have been processed by this event
Expected == CASE E.op = "scheduled" -> [i \in Idx |-> IF Due(Hs[i], st[i], P(i)) THEN 1 ELSE 0]
              [] E.op = "group"     -> [i \in Idx |-> IF InGroup(i, E.group) THEN 1 ELSE 0]
              [] E.op = "forced"    -> [i \in Idx |-> IF E.sel[i] THEN 1 ELSE 0]
Next == /\ bad = {} /\ l <= Len(T.ev)
        /\ bad' = {<<"fired", i, "expected", Expected[i], "got", E.fired[i]>> : i \in {j \in Idx : Expected[j] # E.fired[j]}}
                  \cup {<<"criterion arguments", i>> : i \in {j \in Idx : ~E.args[j]}}
        /\ st' = IF E.op = "scheduled" THEN [i \in Idx |-> After(Hs[i], st[i], P(i))] ELSE st
        /\ l' = l + 1 /\ ti' = ti
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
