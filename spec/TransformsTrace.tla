-------------------------- MODULE TransformsTrace ---------------------------
EXTENDS Transforms, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, cur, clean, bad
vars == <<ti, l, cur, clean, bad>>
T == Traces[ti]
C == T.cfg
E == T.ev[l]
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ cur = <<>> /\ clean = FALSE
New == CASE E.op \in {"write_c"} -> E.v
         [] E.op = "write_g" -> TLCEval(Through(C, E.v, E.g))
         [] E.op \in {"read_g", "low"} -> TLCEval(Through(C, cur, E.g))
         [] E.op = "high" -> TLCEval(Minus(cur, Through(C, cur, E.g)))
         [] OTHER -> cur
Diff(v, w) == IF Len(v) # Len(w) THEN {<<"number of modes", Len(v), Len(w)>>}
              ELSE IF v = w THEN {}
              ELSE LET P == {p \in 1..Len(v) : v[p] # w[p]} p == CHOOSE p \in P : \A r \in P : p <= r
                   IN {<<"mode", C.pos[(p + 1) \div 2], IF Odd(p) THEN "re" ELSE "im", "expected", v[p], "got", w[p]>>}
Check(n) ==
    CASE E.op = "read_g" -> Diff(n, E.obs) \cup (IF E.exact THEN {} ELSE {<<"grid data on", E.g, "are no sum of resolved modes">>})
                            \cup (IF E.g = E.asked THEN {} ELSE {<<"grid shape", E.g, "asked for", E.asked>>})
      [] E.op = "read_c" -> Diff(n, E.obs) \cup (IF E.exact /\ (clean => E.junk = 0) THEN {} ELSE {<<"coefficients of no mode", E.junk, E.exact>>})
      [] E.op = "ell" -> Diff(TLCEval(Scaled(C, n, E.f)), E.obs) \cup (IF E.exact THEN {} ELSE {<<"not integers">>})
      [] E.op = "valid" -> LET B == {p \in 1..2 * Len(C.pos) : (E.mask[p] = 1) # Declared(C, p) /\ (C.real \/ Odd(p))}
                           IN IF B = {} /\ E.none THEN {} ELSE {<<"validity of", IF B = {} THEN 0 ELSE C.pos[((CHOOSE p \in B : TRUE) + 1) \div 2]>>}
      [] OTHER -> {}
MatesOK == \A i \in 1..Len(C.pos) : LET q == C.pos[i] r == C.pos[C.mate[i]] IN
    IsReg(C) \/ (q.m = r.m /\ q.l = r.l /\ q.n = r.n /\ \A k \in 1..Len(q.c) : q.c[k] = -r.c[k])
Next == /\ bad = {} /\ l <= Len(T.ev)
        /\ cur' = New
        /\ clean' = IF E.op = "write_c" THEN FALSE ELSE IF E.op \in {"write_g", "read_g", "low"} THEN TRUE ELSE clean
        /\ bad' = Check(cur') \cup (IF l = 1 /\ ~MatesOK THEN {<<"machinery: mates">>} ELSE {})
        /\ l' = l + 1 /\ ti' = ti
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
