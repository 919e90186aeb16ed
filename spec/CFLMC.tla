------------------------------- MODULE CFLMC -------------------------------
(* Design: any frequency history keeps the timestep within all limits. *)
EXTENDS CFL
CONSTANTS Iters, Freqs
VARIABLES cad, i0, it, st, prev, out
vars == <<cad, i0, it, st, prev, out>>
cc == [init_dt |-> 4 * Unit, safety |-> 8, cadence |-> cad, max_dt |-> 8 * Unit, min_dt |-> Unit \div 4,
       max_change |-> 8, min_change |-> 2, threshold |-> 3, init_iter |-> i0]
Init == cad \in 1..3 /\ i0 \in {0, 2} /\ it = i0 /\ st = Start(cc) /\ prev = 4 * Unit /\ out = 4 * Unit
Next == \E f \in Freqs :
          LET s1 == AfterCompute(cc, st, it)
          IN /\ st' = AfterStep(cc, s1, it, <<<<f, 0>>, <<0, f>>>>)
             /\ prev' = st.stored /\ out' = s1.stored /\ it' = it + 1 /\ UNCHANGED <<cad, i0>>
Spec == Init /\ [][Next]_vars
Bound == it < Iters
Growth == out <= 2 * prev
Shrink == 2 * out >= prev
Limits == out <= 8 * Unit /\ 4 * out >= Unit
FirstUnchanged == it <= i0 + 2 => out = 4 * Unit
OnlyOnCadence == out # prev => (it - 2) % cad = 0
Exact == out # prev /\ st.freq > 0 => TRUE
=============================================================================
