------------------------------ MODULE MemoTrace ------------------------------
EXTENDS Memo, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, cache, live, seen, bad
vars == <<ti, l, cache, live, seen, bad>>
T == Traces[ti]
E == T.ev[l]
Slot == T.cfg.slots[E.slot]
Init == /\ ti \in 1..Len(Traces) /\ l = 1 /\ bad = {}
        /\ cache = [s \in 1..Len(Traces[ti].cfg.slots) |-> {{}}]
        /\ live = {} /\ seen = <<>>
K == Key(Slot.sig, E.pos, E.kw)
GotKey == [fixed |-> E.got.fixed, rest |-> E.got.rest, extra |-> Range(E.got.extra)]
ValueBad == (IF E.err THEN {<<"refused a valid call", E.slot>>} ELSE {})
            \cup (IF ~E.err /\ GotKey # K THEN {<<"value for other arguments", GotKey, "expected", K>>} ELSE {})
            \cup (IF ~E.err /\ E.got.tag # Slot.tag THEN {<<"value of another function or instance", E.got.tag, "expected", Slot.tag>>} ELSE {})
Valid == Binds(Slot.sig, E.pos, E.kw)
Call == /\ E.op = "call" /\ UNCHANGED <<live, seen>>
        /\ IF ~Valid
           THEN /\ bad' = (IF E.err THEN {} ELSE {<<"accepted an invalid call", E.slot>>}) /\ UNCHANGED cache
           ELSE IF ~Slot.memo
           THEN bad' = ValueBad /\ UNCHANGED cache
           ELSE \* the eviction policy is free, so cache[slot] is the set of all caches it may have left so far
                LET C0 == cache[E.slot]
                    C1 == IF E.ran = 0 THEN {C \in C0 : K \in C} ELSE UNION {AfterCall(C, Slot.limit, K) : C \in {D \in C0 : K \notin D}}
                IN /\ bad' = ValueBad \cup
                        (IF ~E.err /\ E.ran > 1 THEN {<<"computed more than once", E.ran>>} ELSE {})
                        \cup (IF ~E.err /\ C1 = {} THEN {<<IF E.ran = 0 THEN "not computed though not kept" ELSE "computed again though kept", K>>} ELSE {})
                   /\ cache' = [cache EXCEPT ![E.slot] = C1]
\* instances of memoized classes: one live instance per key
LiveFor(k) == {x \in live : x.slot = E.slot /\ x.key = k}
New == /\ E.op = "new" /\ UNCHANGED <<cache, seen>>
       /\ IF ~Valid THEN bad' = (IF E.err THEN {} ELSE {<<"accepted an invalid call", E.slot>>}) /\ UNCHANGED live
          ELSE /\ bad' = ValueBad \cup
                    (IF ~E.err /\ LiveFor(K) # {} /\ E.tok \notin {x.tok : x \in LiveFor(K)} THEN {<<"second instance for the same arguments", K>>} ELSE {})
                    \cup (IF ~E.err /\ LiveFor(K) = {} /\ E.tok \in {x.tok : x \in live} THEN {<<"instance shared between arguments", K>>} ELSE {})
                    \cup (IF ~E.err /\ (E.ran = 0) # (LiveFor(K) # {}) THEN {<<"initialized", E.ran, "times; live", LiveFor(K)>>} ELSE {})
               /\ live' = live \cup {[slot |-> E.slot, key |-> K, tok |-> E.tok]}
Drop == /\ E.op = "drop" /\ live' = {x \in live : x.tok # E.tok} /\ bad' = {} /\ UNCHANGED <<cache, seen>>
Disp == /\ E.op = "dispatch" /\ UNCHANGED <<cache, live, seen>>
        /\ LET w == Dispatch(T.cfg.tree, E.cls, E.arg)
           IN bad' = IF w = E.res THEN {} ELSE {<<"dispatch", E.cls, E.arg, "expected", w, "got", E.res>>}
\* real memoized members of the code base: whatever was asked for before, the same question has the same answer
Real == /\ E.op = "real" /\ UNCHANGED <<cache, live>>
        /\ seen' = IF E.key \in DOMAIN seen THEN seen ELSE (E.key :> E.dig) @@ seen
        /\ bad' = IF E.key \in DOMAIN seen /\ seen[E.key] # E.dig THEN {<<"answer changed", E.key>>} ELSE {}
Next == /\ bad = {} /\ l <= Len(T.ev)
        /\ (Call \/ New \/ Drop \/ Disp \/ Real)
        /\ l' = l + 1 /\ ti' = ti
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
