------------------------------ MODULE ReduceMC -------------------------------
(* Reducing in any order over processes: every process contributes the reduction of its own part, a
   process without data contributes the neutral element, and the result is that of all the data.     *)
EXTENDS Reduce
CONSTANTS P, Hi
VARIABLES parts, acc, done
vars == <<parts, acc, done>>
Parts == UNION {[1..n -> -Hi..Hi] : n \in 0..2}
Inf == 1000
Init == parts \in [1..P -> Parts] /\ (\E r \in 1..P : parts[r] # <<>>) /\ done = {}
        /\ acc = [min |-> Inf, max |-> -Inf, sum |-> 0, size |-> 0, sq |-> 0]
Lo(s) == IF s = <<>> THEN Inf ELSE Min(s)
Up(s) == IF s = <<>> THEN -Inf ELSE Max(s)
Contribute(r) == /\ r \notin done /\ done' = done \cup {r} /\ parts' = parts
                 /\ LET s == parts[r] IN acc' = [min |-> IF Lo(s) < acc.min THEN Lo(s) ELSE acc.min, max |-> IF Up(s) > acc.max THEN Up(s) ELSE acc.max,
                       sum |-> acc.sum + Sum(s), size |-> acc.size + Len(s), sq |-> acc.sq + NormSum([i \in DOMAIN s |-> <<s[i], 0>>], 2)]
Next == \E r \in 1..P : Contribute(r)
Spec == Init /\ [][Next]_vars
All == Flat(parts)
Right == Cardinality(done) = P => /\ acc.min = Min(All) /\ acc.max = Max(All) /\ acc.sum = Sum(All) /\ acc.size = Len(All)
                                  /\ acc.sq = NormSum([i \in DOMAIN All |-> <<All[i], 0>>], 2)
\* known volumes and centroids
ASSUME Volume([kind |-> "disk", lo |-> 0, hi |-> 1]) \in {<<1, 2>>}
ASSUME LET v == Volume([kind |-> "shell", lo |-> 1, hi |-> 2]) IN v[1] * 3 = 7 * v[2]
ASSUME \A i \in 1..3 : LET m == [j \in 1..3 |-> IF j = i THEN 2 ELSE 0] q == Moment([kind |-> "sphere"], m) IN q[1] * 3 = q[2]
ASSUME Moment([kind |-> "ball", lo |-> 0, hi |-> 1], <<1, 2, 0>>)[1] = 0
=============================================================================
