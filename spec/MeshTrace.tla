------------------------------ MODULE MeshTrace ------------------------------
(* Validates runs of one problem on many meshes: the first one on a single process, the others end as it did. *)
EXTENDS Spmd, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, bad
vars == <<ti, l, bad>>
T == Traces[ti]
E == T.ev[l]
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {}
F(p, msg) == IF p THEN {} ELSE {msg}
Serial == T.ev[1]
\* a mesh may not distribute dimensions along which the problem itself is coupled; that is said and nothing is solved
MayRefuse == E.coupled /\ E.P > 1
Match(a, b) == a.name = b.name /\ a.dims = b.dims /\ Len(a.x) = Len(b.x) /\ \A i \in DOMAIN a.x : Near(a.x[i], b.x[i], 5)
Run == F(E.agree, "processes differ about the result")
       \cup (IF E.err = "refused" THEN F(MayRefuse, "refused to solve on a mesh")
             ELSE IF E.err # "" THEN {"failed on a mesh"}
             ELSE F(Len(E.res) = Len(Serial.res), "parts of the result")
                  \cup (IF Len(E.res) # Len(Serial.res) THEN {} ELSE {Serial.res[i].name : i \in {j \in DOMAIN E.res : ~Match(Serial.res[j], E.res[j])}}))
Next == /\ bad = {} /\ l <= Len(T.ev) /\ l' = l + 1 /\ ti' = ti /\ bad' = Run
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
