---------------------------- MODULE SolverLoopMC ----------------------------
EXTENDS SolverLoop
CONSTANTS Dts, Ws, MaxIt
VARIABLES s, steps, stopped
vars == <<s, steps, stopped>>
Init == /\ s \in {[Start([it0 |-> i, t0 |-> t, u0 |-> 5]) EXCEPT !.stopT = a, !.stopW = b, !.stopI = k] :
                   i \in {0, 2}, t \in {0, 3}, a \in {4, 7, Never}, b \in {2, Never}, k \in {3, 5, Never}}
        /\ steps = 0 /\ stopped = FALSE
Step == Proceeds(s) /\ \E d \in Dts, w \in Ws : s' = Stepped(s, d, w) /\ steps' = steps + 1 /\ stopped' = FALSE
Stop == ~Proceeds(s) /\ ~stopped /\ stopped' = TRUE /\ UNCHANGED <<s, steps>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bound == s.it < MaxIt
\* the loop never overshoots a stop criterion by more than the last step
NoOvershoot == steps > 0 => s.t - s.dt < s.stopT /\ s.it - 1 < s.stopI
TimeIsSum == s.u - 5 = s.t \/ s.u - 5 = s.t - 3
StopsWhenReached == stopped => (s.t >= s.stopT \/ s.wall >= s.stopW \/ s.it >= s.stopI)
EvolveSame == LET e == Evolve(s, <<1, 2, 1>>, 1, 1) IN
              Len(Shows(s, <<1, 2, 1>>, 1, 1)) = e.it - s.it
LiveBound == s.stopI # Never \/ s.stopT # Never
Terminates == (s.stopI # Never \/ s.stopT # Never) ~> stopped
=============================================================================
