------------------------------ MODULE PostTrace ------------------------------
(* Validates recorded visits, hands of sets and merges. *)
EXTENDS Post, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, bad
vars == <<ti, l, bad>>
T == Traces[ti]
E == T.ev[l]
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {}
F(p, msg) == IF p THEN {} ELSE {msg}
Visit == LET ord == TLCEval(Order([i \in DOMAIN E.files |-> E.files[i].name]))
             w == TLCEval([k \in DOMAIN ord |-> E.files[ord[k]].writes])
             pos(i) == CHOOSE k \in DOMAIN ord : ord[k] = i
             calls == TLCEval([r \in DOMAIN E.visits |-> [k \in DOMAIN E.visits[r] |-> <<pos(E.visits[r][k][1]), E.visits[r][k][2], E.visits[r][k][3]>>]]) IN
    F(Len(E.visits) = T.cfg.P, "number of workers")
    \cup F(Inside(w, calls), "range of a visit") \cup F(Once(w, calls), "writes visited once") \cup F(Natural(calls), "order of the visits")
    \cup F(\A r \in DOMAIN E.visits : \A k \in DOMAIN E.visits[r] : E.visits[r][k][4] = 7, "keywords of a visit")
    \cup F(E.counts = w, "number of writes of the sets")
Sets == LET ord == TLCEval(Order([i \in DOMAIN E.sets |-> <<E.sets[i]>>]))
            at(x) == CHOOSE k \in DOMAIN ord : E.sets[ord[k]] = x
            known == \A r \in DOMAIN E.got : \A k \in DOMAIN E.got[r] : \E i \in DOMAIN E.sets : E.sets[i] = E.got[r][k] IN
    IF ~known THEN {"sets handed out"} ELSE LET hands == [r \in DOMAIN E.got |-> [k \in DOMAIN E.got[r] |-> at(E.got[r][k])]] IN
    F(OnceSets(Len(E.sets), hands), "sets handed out once") \cup F(Ascending(hands), "order of the sets")
Same(a, b) == a = b
Merge == LET a == E.after b == E.before IN
    F(a.attrs = b.attrs, "attributes of the file") \cup F(a.scales = b.scales, "scales of the file")
    \cup (IF Len(a.tasks) # Len(b.tasks) THEN {"tasks"} ELSE UNION {LET x == a.tasks[k] y == b.tasks[k] IN
            F(x.name = y.name, "task names") \cup F(x.shape = y.shape /\ x.dtype = y.dtype, "shape of a task") \cup F(x.data = y.data, "data of a task")
            \cup F(x.labels = y.labels, "labels of a task") \cup F(x.dims = y.dims, "scales of a task") \cup F(x.attrs = y.attrs, "attributes of a task") : k \in DOMAIN a.tasks})
    \cup F(\A k \in DOMAIN E.virtual : E.virtual[k] = ~E.merged, "kind of the datasets")
    \cup F(E.parts = ~(E.merged /\ E.cleanup), "parts kept or removed") \cup F(E.others = <<>>, "left-over files")
Next == /\ bad = {} /\ l <= Len(T.ev) /\ l' = l + 1 /\ ti' = ti
        /\ bad' = CASE E.op = "visit" -> Visit [] E.op = "sets" -> Sets [] E.op = "merge" -> Merge
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
