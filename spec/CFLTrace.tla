------------------------------ MODULE CFLTrace ------------------------------
EXTENDS CFL, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, st, bad
vars == <<ti, l, st, bad>>
T == Traces[ti]
c == T.cfg
E == T.ev[l]
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ st = Start(Traces[ti].cfg)
Computed == AfterCompute(c, st, E.it)
Next == /\ bad = {} /\ l <= Len(T.ev)
        /\ CASE E.op = "compute" ->
                 /\ st' = Computed
                 /\ bad' = IF E.dt = Computed.stored THEN {}
                           ELSE {<<IF Due(c, E.it) THEN "recomputed timestep" ELSE "timestep off cadence",
                                   "expected", Computed.stored, "got", E.dt>>}
             [] E.op = "step" ->
                 /\ st' = AfterStep(c, st, E.it, E.freqs)
                 /\ bad' = {}
        /\ l' = l + 1 /\ ti' = ti
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
