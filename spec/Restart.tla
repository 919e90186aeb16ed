------------------------------ MODULE Restart --------------------------------
(* Solvers of a one-step scheme that write their state to files and load it back.
   A state is [ids, it, t, it0, t0]: one identity per variable (equal identities = equal functions), iteration, time, and the initial ones. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* the state after a step is a function of the state before it, the time and the timestep: `memo` remembers which identities it gave
Known(memo, ids, t, dt) == {k \in DOMAIN memo : memo[k].ids = ids /\ memo[k].t = t /\ memo[k].dt = dt}
Stepped(st, dt, new) == [st EXCEPT !.ids = new, !.it = @ + 1, !.t = @ + dt]
\* a write: what it holds of every variable ("no" = not a task, else the layout it was asked in)
Written(st, has, size, dt, n) == [ids |-> st.ids, has |-> has, size |-> size, it |-> st.it, t |-> st.t, dt |-> dt, n |-> n]
\* sets of max writes; indices count from zero, negative ones from the end of the file
FileOf(log, max, k) == {n \in DOMAIN log : (n - 1) \div max + 1 = k}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Chosen(log, max, k, idx) == LET S == FileOf(log, max, k) IN Least(S) + (IF idx >= 0 THEN idx ELSE Cardinality(S) + idx)
\* coefficient data cannot change shape; constants always fit
Fits(w, v, size, constant) == w.has[v] # "c" \/ w.size = size \/ v \in constant
Refused(w, size, allow, constant) == \E v \in DOMAIN w.has : (w.has[v] = "no" /\ ~allow) \/ (w.has[v] # "no" /\ ~Fits(w, v, size, constant))
Loaded(st, w) == [ids |-> [v \in DOMAIN st.ids |-> IF w.has[v] = "no" THEN st.ids[v] ELSE w.ids[v]], it |-> w.it, t |-> w.t, it0 |-> w.it, t0 |-> w.t]
Clock(st) == <<st.it, st.t, st.it0, st.t0>>
=============================================================================
