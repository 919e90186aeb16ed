-------------------------------- MODULE Post ---------------------------------
(* Handing out output sets and their writes to worker processes, and merging the parts of sets. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* names are sequences of tokens that compare like numbers (texts by rank)
RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
    ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))
\* natural order of a sequence of named things: the permutation listing them from first to last
Place(names, i) == Cardinality({j \in DOMAIN names : Before(names[j], names[i]) \/ (names[j] = names[i] /\ j < i)}) + 1
Order(names) == [k \in DOMAIN names |-> CHOOSE i \in DOMAIN names : Place(names, i) = k]
RECURSIVE Sum(_, _)
Sum(w, n) == IF n = 0 THEN 0 ELSE w[n] + Sum(w, n - 1)
Total(w) == Sum(w, Len(w))
Max(a, b) == IF a < b THEN b ELSE a
Min(a, b) == IF a < b THEN a ELSE b
\* worker r of P (from 0) takes the r-th block of all writes, in order: its part of the s-th set
Block(w, P) == (Total(w) + P - 1) \div P
Clip(x, lo, hi) == Min(Max(x, lo), hi)
StartOf(w, P, r, s) == LET lo == Sum(w, s - 1) IN Clip(r * Block(w, P), lo, lo + w[s]) - lo
CountOf(w, P, r, s) == LET lo == Sum(w, s - 1) IN Clip((r + 1) * Block(w, P), lo, lo + w[s]) - lo - StartOf(w, P, r, s)
\* the calls a worker makes: <<set, start, count>> with something in them
RECURSIVE CallsN(_, _, _, _)
CallsN(w, P, r, n) == IF n = 0 THEN <<>> ELSE CallsN(w, P, r, n - 1) \o (IF CountOf(w, P, r, n) > 0 THEN <<<<n, StartOf(w, P, r, n), CountOf(w, P, r, n)>>>> ELSE <<>>)
Calls(w, P, r) == CallsN(w, P, r, Len(w))
\* what any handing out must do.  calls[r] = sequence of <<set, start, count>>, sets numbered in natural order
Visited(calls, s, i) == {<<r, k>> \in {<<r, k>> \in (DOMAIN calls) \X (0..200) : k \in DOMAIN calls[r]} : calls[r][k][1] = s /\ calls[r][k][2] <= i /\ i < calls[r][k][2] + calls[r][k][3]}
Once(w, calls) == \A s \in DOMAIN w : \A i \in 0..(w[s] - 1) : Cardinality(Visited(calls, s, i)) = 1
Inside(w, calls) == \A r \in DOMAIN calls : \A k \in DOMAIN calls[r] : LET c == calls[r][k] IN c[1] \in DOMAIN w /\ c[2] >= 0 /\ c[3] > 0 /\ c[2] + c[3] <= w[c[1]]
Natural(calls) == \A r \in DOMAIN calls : \A j, k \in DOMAIN calls[r] : j < k => calls[r][j][1] < calls[r][k][1] \/ (calls[r][j][1] = calls[r][k][1] /\ calls[r][j][2] + calls[r][j][3] <= calls[r][k][2])
\* whole sets: dealt round in natural order
Dealt(n, P, r) == [k \in 1..((n - r + P - 1) \div P) |-> r + 1 + (k - 1) * P]
OnceSets(n, hands) == \A s \in 1..n : Cardinality({<<r, k>> \in {<<r, k>> \in (DOMAIN hands) \X (1..n) : k \in DOMAIN hands[r]} : hands[r][k] = s}) = 1
Ascending(hands) == \A r \in DOMAIN hands : \A j, k \in DOMAIN hands[r] : j < k => hands[r][j] < hands[r][k]
=============================================================================
