----------------------------- MODULE RestartMC -------------------------------
(* Design: a run split by restarts at any writes goes through the states of the unbroken run with the same timesteps. *)
EXTENDS Restart
CONSTANTS Dts, Depth, Max
VARIABLES st, path, log, paths
vars == <<st, path, log, paths>>
\* the dynamics: both variables move with each other and with time, reduced to small numbers so that the model stays finite
F(ids, t, dt) == <<(3 * ids[1] + ids[2] + dt * (t + 1)) % 97, (ids[1] * (t + 2) + 5 * dt) % 89>>
I0 == [ids |-> <<1, 2>>, it |-> 0, t |-> 0, it0 |-> 0, t0 |-> 0]
RECURSIVE Unbroken(_)
Unbroken(p) == IF p = <<>> THEN I0 ELSE LET b == Unbroken(SubSeq(p, 1, Len(p) - 1)) d == p[Len(p)] IN Stepped(b, d, F(b.ids, b.t, d))
Init == st = I0 /\ path = <<>> /\ log = <<>> /\ paths = <<>>
Step == \E d \in Dts : Len(path) < Depth /\ st' = Stepped(st, d, F(st.ids, st.t, d)) /\ path' = Append(path, d) /\ UNCHANGED <<log, paths>>
Write == \E d \in Dts : Len(log) < Max /\ log' = Append(log, Written(st, <<"g", "c">>, 0, d, Len(log) + 1)) /\ paths' = Append(paths, path) /\ UNCHANGED <<st, path>>
Load == \E k \in 1..Max, i \in (-2)..1 : LET S == FileOf(log, 2, k) n == Cardinality(S) IN
    i < n /\ -i <= n /\ n > 0 /\ LET c == Chosen(log, 2, k, i) IN
    ~Refused(log[c], 0, FALSE, {}) /\ st' = Loaded(st, log[c]) /\ path' = paths[c] /\ UNCHANGED <<log, paths>>
Next == Step \/ Write \/ Load
Spec == Init /\ [][Next]_vars
Same == LET u == Unbroken(path) IN st.ids = u.ids /\ st.it = u.it /\ st.t = u.t
Initial == st.it0 <= st.it /\ st.t0 <= st.t /\ (<<st.it0, st.t0>> = <<0, 0>> \/ \E n \in DOMAIN log : log[n].it = st.it0 /\ log[n].t = st.t0)
InFile == \A k \in 1..Max : LET S == FileOf(log, 2, k) IN S # {} => \A i \in 0..(Cardinality(S) - 1) : Chosen(log, 2, k, i) = Chosen(log, 2, k, i - Cardinality(S)) /\ Chosen(log, 2, k, i) \in S
=============================================================================
