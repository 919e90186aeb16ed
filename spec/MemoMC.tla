------------------------------- MODULE MemoMC -------------------------------
(* A memoizing call in two steps of lookup (the call as spelled, then the call as bound), with     *)
(* eviction of the oldest key, refines the abstract cache of Memo.tla.                             *)
EXTENDS Memo
CONSTANTS Limit, Depth
Sig == [params |-> <<[name |-> "a", kind |-> "pos", default |-> ""], [name |-> "b", kind |-> "pos", default |-> "1"],
                     [name |-> "c", kind |-> "kwonly", default |-> "1"]>>, va |-> TRUE, vk |-> TRUE]
Calls == {[pos |-> p, kw |-> k] : p \in {<<>>, <<"0">>, <<"1">>, <<"0", "1">>, <<"0", "1", "1">>},
                                  k \in {<<>>, <<<<"a", "0">>>>, <<<<"b", "1">>>>, <<<<"c", "0">>>>, <<<<"z", "0">>>>, <<<<"c", "1">>, <<"z", "0">>>>}}
Valid == {c \in Calls : Binds(Sig, c.pos, c.kw)}
KeyOf(c) == Key(Sig, c.pos, c.kw)
VARIABLES kept, alias, abs, n, last
\* kept: keys in order of insertion; alias: spelled call -> key
Init == kept = <<>> /\ alias = <<>> /\ abs = {} /\ n = 0 /\ last = <<>>
Evicted(q) == IF Limit = 0 \/ Len(q) < Limit THEN q ELSE SubSeq(q, Len(q) - Limit + 2, Len(q))
Do(c) == LET direct == c \in DOMAIN alias /\ alias[c] \in Range(kept)
             k == IF direct THEN alias[c] ELSE KeyOf(c)
             hit == k \in Range(kept)
             q == IF hit THEN kept ELSE Append(Evicted(kept), k)
         IN /\ kept' = q
            /\ alias' = [d \in {e \in DOMAIN alias : alias[e] \in Range(q)} |-> alias[d]] @@ (c :> k)
            /\ abs' \in AfterCall(abs, Limit, KeyOf(c)) /\ abs' = Range(q)
            /\ last' = <<k, KeyOf(c), hit, KeyOf(c) \in abs>>
Next == n < Depth /\ n' = n + 1 /\ \E c \in Valid : Do(c)
Spec == Init /\ [][Next]_<<kept, alias, abs, n, last>>
Right == last # <<>> => last[1] = last[2] /\ last[3] = last[4]
Bounded == Limit # 0 => Len(kept) <= Limit
\* the abstract step is always enabled: eviction never drops a key without need
Refines == n < Depth => \A c \in Valid : ENABLED Do(c)
=============================================================================
