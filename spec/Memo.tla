-------------------------------- MODULE Memo --------------------------------
(* Memoized calls.  A slot is one memoized function, or one method, class method or attribute   *)
(* of one instance (or class): it has a signature, an identity tag, a size limit (0: none) and,  *)
(* as state, the set of argument keys it holds.  Calls are bound to the signature as Python      *)
(* does; the key of a call is what the binding yields, so that two spellings of one call share a *)
(* key and calls that differ in any argument do not.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
PosIdx(sig) == SelectSeq([i \in 1..Len(sig.params) |-> i], LAMBDA i : sig.params[i].kind = "pos")
Names(sig) == {sig.params[i].name : i \in 1..Len(sig.params)}
KwNames(kw) == {kw[j][1] : j \in 1..Len(kw)}
Given(kw, n) == (CHOOSE j \in 1..Len(kw) : kw[j][1] = n)
ByPos(sig, pos) == LET P == PosIdx(sig) IN {P[i] : i \in 1..(IF Len(pos) < Len(P) THEN Len(pos) ELSE Len(P))}
\* Is the call valid for the signature?
Binds(sig, pos, kw) ==
    /\ Len(pos) <= Len(PosIdx(sig)) \/ sig.va
    /\ \A i \in ByPos(sig, pos) : sig.params[i].name \notin KwNames(kw)
    /\ KwNames(kw) \subseteq Names(sig) \/ sig.vk
    /\ \A i \in 1..Len(sig.params) : i \in ByPos(sig, pos) \/ sig.params[i].name \in KwNames(kw) \/ sig.params[i].default # ""
Key(sig, pos, kw) ==
    LET P == PosIdx(sig)
        at(i) == CHOOSE k \in 1..Len(P) : P[k] = i
    IN [fixed |-> [i \in 1..Len(sig.params) |->
                     IF i \in ByPos(sig, pos) THEN pos[at(i)]
                     ELSE IF sig.params[i].name \in KwNames(kw) THEN kw[Given(kw, sig.params[i].name)][2]
                     ELSE sig.params[i].default],
        rest |-> IF Len(pos) > Len(P) THEN SubSeq(pos, Len(P) + 1, Len(pos)) ELSE <<>>,
        extra |-> {kw[j] : j \in {i \in 1..Len(kw) : kw[i][1] \notin Names(sig)}}]

\* The caches a call may leave behind: unchanged on a hit; on a miss the key is added, and other keys
\* may go only if the limit would be exceeded.
Hit(cache, k) == k \in cache
AfterCall(cache, limit, k) ==
    IF k \in cache THEN {cache}
    ELSE IF limit = 0 \/ Cardinality(cache) < limit THEN {cache \cup {k}}
    ELSE {C \cup {k} : C \in {D \in SUBSET cache : Cardinality(D) < limit}}

(* Class dispatch: a tree of classes; a class without (eligible) subclasses is built if it        *)
(* accepts the argument; otherwise the one subclass that accepts it takes over.                   *)
RECURSIVE Dispatch(_, _, _)
Eligible(tree, c) == SelectSeq(tree[c].children, LAMBDA d : ~tree[d].stop)
Dispatch(tree, c, a) ==
    IF tree[c].skip[a] THEN <<"skip", c>>
    ELSE LET S == Eligible(tree, c)
             ok == SelectSeq(S, LAMBDA d : tree[d].app[a])
         IN IF S = <<>> THEN IF tree[c].app[a] THEN <<"class", c>> ELSE <<"TypeError", 0>>
            ELSE IF Len(ok) = 0 THEN <<"NotImplementedError", 0>>
            ELSE IF Len(ok) > 1 THEN <<"ValueError", 0>>
            ELSE Dispatch(tree, ok[1], a)
=============================================================================
