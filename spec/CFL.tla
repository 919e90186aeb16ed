-------------------------------- MODULE CFL --------------------------------
(* The CFL timestep controller.  Times are integers in ticks of 2^-24; frequencies are          *)
(* integers (per unit time); safety = s/16, changes = c/4, threshold = th/16, 0 meaning unset   *)
(* for max_dt and max_change.  c.init_iter is the iteration at which the run starts.            *)
EXTENDS Integers, Sequences, FiniteSets
ABS(x) == IF x < 0 THEN -x ELSE x
MaxS(S) == CHOOSE m \in S : \A y \in S : y <= m
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Unit == 1048576            \* 2^24 / 16: ticks of one sixteenth of a time unit

\* largest total frequency over the grid; fs is a sequence of equally long sequences (grid values of each frequency)
RECURSIVE SumAbs(_, _, _)
SumAbs(fs, x, k) == IF k = 0 THEN 0 ELSE ABS(fs[k][x]) + SumAbs(fs, x, k - 1)
Total(fs) == IF Len(fs) = 0 THEN 0 ELSE MaxS({SumAbs(fs, x, Len(fs)) : x \in 1..Len(fs[1])})

\* the state: stored timestep, last evaluated total frequency (-1: none), last evaluation interval
Start(c) == [stored |-> c.init_dt, freq |-> -1, div |-> -1]
Inf == 2000000000
\* the new timestep prescribed by frequency f and the stored one
Cap(c, stored) == Min2(IF c.max_dt = 0 THEN Inf ELSE c.max_dt,
                       IF c.max_change = 0 THEN Inf ELSE (c.max_change * stored) \div 4)
Floor_(c, stored) == Max2(c.min_dt, (c.min_change * stored) \div 4)
Raw(c, f) == IF f = 0 THEN Inf ELSE (c.safety * Unit) \div f
Target(c, stored, f) == Max2(Min2(Raw(c, f), Cap(c, stored)), Floor_(c, stored))
Moves(c, stored, d) == 16 * ABS(d - stored) > c.threshold * stored
NewDt(c, stored, f) == LET d == Target(c, stored, f) IN IF Moves(c, stored, d) THEN d ELSE stored

\* frequencies are (re)evaluated by a step taken at iteration it
AfterStep(c, st, it, fs) == IF it \div c.cadence > st.div
                            THEN [st EXCEPT !.freq = Total(fs), !.div = it \div c.cadence]
                            ELSE st
\* computing the timestep at iteration it
Due(c, it) == (it - 1) % c.cadence = 0 /\ it - 1 > c.init_iter
AfterCompute(c, st, it) == IF Due(c, it) THEN [st EXCEPT !.stored = NewDt(c, st.stored, st.freq)] ELSE st
=============================================================================
