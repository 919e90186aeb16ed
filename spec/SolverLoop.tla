----------------------------- MODULE SolverLoop -----------------------------
(* The time loop of an initial value solver.  Times are integer ticks; Never stands for an      *)
(* unset stop criterion.  The modelled problem is dt(u) = 1, so the state is u = u0 + t.        *)
EXTENDS Integers, Sequences, FiniteSets
Never == 1000000000
\* state: iteration, simulation time, wall time, mean of u, last dt, stop criteria
Start(c) == [it |-> c.it0, t |-> c.t0, wall |-> 0, u |-> c.u0, dt |-> 0,
             stopT |-> Never, stopW |-> Never, stopI |-> Never]
Proceeds(s) == s.t < s.stopT /\ s.wall < s.stopW /\ s.it < s.stopI
Stepped(s, dt, w) == [s EXCEPT !.it = @ + 1, !.t = @ + dt, !.u = @ + dt, !.dt = dt, !.wall = @ + w]
\* what a scheduled handler with cadence 1 is shown by a step: the state before it
Shown(s, dt) == [it |-> s.it, t |-> s.t, dt |-> dt, u |-> s.u]
\* evolving with timesteps dts[i] (i-th call) until a stop criterion is met
RECURSIVE Evolve(_, _, _, _)
Evolve(s, dts, i, w) == IF ~Proceeds(s) \/ i > Len(dts) THEN s ELSE Evolve(Stepped(s, dts[i], w), dts, i + 1, w)
RECURSIVE Shows(_, _, _, _)
Shows(s, dts, i, w) == IF ~Proceeds(s) \/ i > Len(dts) THEN <<>>
                       ELSE <<Shown(s, dts[i])>> \o Shows(Stepped(s, dts[i], w), dts, i + 1, w)
=============================================================================
