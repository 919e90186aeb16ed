--------------------------- MODULE SolverLoopTrace ---------------------------
EXTENDS SolverLoop, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, st, bad
vars == <<ti, l, st, bad>>
T == Traces[ti]
E == T.ev[l]
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ st = Start(Traces[ti].cfg)
Differ(name, want, got) == IF want = got THEN {} ELSE {<<name, "expected", want, "got", got>>}
\* every event carries the observable state after it and the handler calls it caused
Observe(s) == Differ("iteration", s.it, E.obs.it) \cup Differ("sim_time", s.t, E.obs.t)
              \cup Differ("problem time", s.t, E.obs.pt) \cup Differ("state", s.u, E.obs.u)
              \cup Differ("proceed", Proceeds(s), E.obs.proceed)
After ==
    CASE E.op = "step"    -> Stepped(st, E.dt, E.w)
      [] E.op = "badstep" -> st
      [] E.op = "stops"   -> [st EXCEPT !.stopT = E.stopT, !.stopW = E.stopW, !.stopI = E.stopI]
      [] E.op = "clock"   -> [st EXCEPT !.wall = @ + E.w]
      [] E.op = "settime" -> [st EXCEPT !.t = E.t]
      [] E.op = "handlers" -> st
      [] E.op = "evolve"  -> IF E.refused THEN st ELSE Evolve(st, E.dts, 1, E.w)
Calls ==
    CASE E.op = "step"     -> <<Shown(st, E.dt)>>
      [] E.op = "handlers" -> <<Shown(st, E.dt)>>
      [] E.op = "evolve"   -> IF E.refused THEN <<>> ELSE Shows(st, E.dts, 1, E.w)
      [] OTHER             -> <<>>
Refusal ==
    CASE E.op = "badstep" -> IF E.refused THEN {} ELSE {<<"invalid timestep accepted">>}
      [] E.op = "evolve"  -> Differ("evolve refused", st.stopT = Never /\ st.stopW = Never /\ st.stopI = Never, E.refused)
      [] OTHER -> {}
Next == /\ bad = {} /\ l <= Len(T.ev)
        /\ st' = After
        /\ bad' = Observe(After) \cup Differ("handler calls", Calls, E.calls) \cup Refusal
        /\ l' = l + 1 /\ ti' = ti
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
