----------------------------- MODULE DerivTrace -----------------------------
(* Validates recorded values and symbolic derivatives of expressions of elementary functions. *)
EXTENDS Deriv, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, bad
vars == <<ti, l, bad>>
T == Traces[ti]
E == T.ev[l]
\* values in 1/10^8, slopes in 1/10^5, steps of 1/400: twelve steps are 30 units of values per unit of slope
W == 30
F(p, msg) == IF p THEN {} ELSE {msg}
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {}
Value == F(\A i \in DOMAIN E.want : Abs(E.got[i] - E.want[i]) <= 100, "value of an expression")
Slope == F(\A i \in DOMAIN E.got : Agrees(E.vals[1][i], E.vals[2][i], E.vals[3][i], E.vals[4][i], E.got[i], W), "derivative of an expression")
Next == /\ bad = {} /\ l <= Len(T.ev) /\ l' = l + 1 /\ ti' = ti
        /\ bad' = IF E.op = "value" THEN Value ELSE Slope
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
