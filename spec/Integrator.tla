----------------------------- MODULE Integrator ------------------------------
(* Bookkeeping of an integrator: the state advanced by steps and replaced by users, the history kept
   in rotating slots, and the factorized matrices kept while their parameters stay the same.
   States are identities (naturals); coefficients are identified by what determines them.           *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Ks, Steps                         \* timesteps, number of actions
Schemes == {"one", "cn", "two", "three", "four", "rk"}   \* how many timesteps the coefficients depend on
Slots(s) == CASE s = "four" -> 4 [] s = "three" -> 3 [] s \in {"two", "cn"} -> 2 [] OTHER -> 1
VARIABLES scheme, cur, fresh, past, ring, dts, ringDt, key, built, used, used0
vars == <<scheme, cur, fresh, past, ring, dts, ringDt, key, built, used, used0>>
Init == /\ scheme \in Schemes /\ cur = 0 /\ fresh = 1 /\ past = <<>> /\ dts = <<>> /\ key = <<>> /\ built = <<>> /\ used = <<>> /\ used0 = <<>>
        /\ ring = [i \in 1..Slots(scheme) |-> 99] /\ ringDt = [i \in 1..Slots(scheme) |-> 0]
Min(a, b) == IF a < b THEN a ELSE b
Prefix(s, n) == SubSeq(s, 1, Min(n, Len(s)))
\* what the left-hand coefficients of a step depend on, after `done` steps
Lhs(s, ks, done) == IF s \in {"rk", "cn", "one"} THEN Prefix(ks, 1) ELSE Prefix(ks, Min(Slots(s), done + 1))
Reach(s, done) == IF s \in {"rk", "one"} THEN 1 ELSE Min(Slots(s), done + 1)
Shift(s, x) == <<x>> \o SubSeq(s, 1, Len(s) - 1)
Step(k) == LET rd == Shift(ringDt, k) rg == Shift(ring, cur) need == Lhs(scheme, rd, Len(past)) IN
           /\ past' = <<cur>> \o past /\ dts' = <<k>> \o dts /\ ring' = rg /\ ringDt' = rd
           /\ key' = need /\ built' = IF need = key THEN built ELSE need
           /\ used' = Prefix(rg, Reach(scheme, Len(past))) /\ used0' = Prefix(past', Reach(scheme, Len(past)))
           /\ cur' = fresh /\ fresh' = fresh + 1 /\ UNCHANGED scheme
Set == cur' = fresh /\ fresh' = fresh + 1 /\ UNCHANGED <<scheme, past, dts, ring, ringDt, key, built, used, used0>>
Next == fresh <= Steps /\ ((\E k \in Ks : Step(k)) \/ Set)
Spec == Init /\ [][Next]_vars
\* a step refers to the true past states only, and is solved with the matrices of its own coefficients
History == used = used0 /\ 99 \notin {used[i] : i \in DOMAIN used}
Matrices == past # <<>> => built = Lhs(scheme, dts, Len(past) - 1)
=============================================================================
