---------------------------- MODULE RestartTrace -----------------------------
(* Validates recorded runs with restarts: the clocks, what loads return, and that equal histories show equal values. *)
EXTENDS Restart, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, bad, st, hs, memo, seen, fresh
vars == <<ti, l, bad, st, hs, memo, seen, fresh>>
T == Traces[ti]
E == T.ev[l]
Constants == {3}
None == [ids |-> <<>>, it |-> 0, t |-> 0, it0 |-> 0, t0 |-> 0]
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ st = [s \in 1..2 |-> None] /\ hs = <<>> /\ memo = <<>> /\ seen = <<>> /\ fresh = 1
Near(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : x[i] - y[i] \in -2..2
F(p, msg) == IF p THEN {} ELSE {msg}
NewIds(n) == [v \in 1..n |-> fresh + v - 1]
SizeOf(s) == LET k == CHOOSE i \in DOMAIN T.ev : T.ev[i].op = "start" /\ T.ev[i].s = s IN T.ev[k].size
Start == LET n == E.n IN
    /\ st' = [st EXCEPT ![E.s] = [ids |-> NewIds(n), it |-> 0, t |-> E.t, it0 |-> 0, t0 |-> E.t]]
    /\ fresh' = fresh + n /\ bad' = {} /\ UNCHANGED <<hs, memo, seen>>
Set == LET n == Len(st[E.s].ids) IN
    st' = [st EXCEPT ![E.s].ids = NewIds(n)] /\ fresh' = fresh + n /\ bad' = {} /\ UNCHANGED <<hs, memo, seen>>
Handler == hs' = Append(hs, [s |-> E.s, max |-> E.max, has |-> E.has, log |-> <<>>]) /\ bad' = {} /\ UNCHANGED <<st, memo, seen, fresh>>
Step == LET s == st[E.s] n == Len(s.ids) K == Known(memo, s.ids, s.t, E.dt)
            new == IF K = {} THEN NewIds(n) ELSE memo[CHOOSE k \in K : TRUE].new
            next == Stepped(s, E.dt, new) IN
    /\ memo' = IF K = {} THEN Append(memo, [ids |-> s.ids, t |-> s.t, dt |-> E.dt, new |-> new]) ELSE memo
    /\ fresh' = IF K = {} THEN fresh + n ELSE fresh
    /\ st' = [st EXCEPT ![E.s] = next]
    /\ bad' = F(E.clock = Clock(next), "clock after a step")
              \cup F(\A k \in DOMAIN seen : seen[k].id = s.ids[3] => Near(seen[k].x, E.held), "value a handler holds of every step")
              \cup F(s.t < 0 \/ \A k \in DOMAIN seen : seen[k].id = s.ids[3] => Near(seen[k].x, E.heldt), "value a handler holds of every quarter of time")
    /\ UNCHANGED <<hs, seen>>
Write == LET h == hs[E.h] IN
    /\ hs' = [hs EXCEPT ![E.h].log = Append(@, Written(st[h.s], h.has, SizeOf(h.s), E.dt, Len(h.log) + 1))]
    /\ bad' = F(E.number = Len(h.log) + 1, "write number") /\ UNCHANGED <<st, memo, seen, fresh>>
Load == LET h == hs[E.h] w == h.log[Chosen(h.log, h.max, E.set, E.idx)] no == Refused(w, SizeOf(E.s), E.allow, Constants) next == Loaded(st[E.s], w) IN
    /\ st' = [st EXCEPT ![E.s] = IF no THEN [@ EXCEPT !.ids = [v \in DOMAIN @ |-> 0]] ELSE next]
    /\ bad' = F((E.got = <<>>) = no, "refusal of a load")
              \cup (IF no \/ E.got = <<>> THEN {} ELSE F(E.got = <<w.n, w.dt>>, "write number or timestep returned by a load")
                                                      \cup F(E.clock = Clock(next), "clock after a load"))
    /\ UNCHANGED <<hs, memo, seen, fresh>>
See == LET ids == st[E.s].ids old == {k \in DOMAIN seen : \E v \in DOMAIN ids : seen[k].id = ids[v] /\ ids[v] # 0} IN
    /\ bad' = F(\A k \in old : \A v \in DOMAIN ids : seen[k].id = ids[v] => Near(seen[k].x, E.vals[v]), "values of a variable")
    /\ seen' = seen \o SelectSeq([v \in DOMAIN ids |-> [id |-> ids[v], x |-> E.vals[v]]], LAMBDA r : r.id # 0 /\ \A k \in old : seen[k].id # r.id)
    /\ UNCHANGED <<st, hs, memo, fresh>>
Next == /\ bad = {} /\ l <= Len(T.ev) /\ l' = l + 1 /\ ti' = ti
        /\ CASE E.op = "start" -> Start [] E.op = "set" -> Set [] E.op = "handler" -> Handler [] E.op = "step" -> Step
             [] E.op = "write" -> Write [] E.op = "load" -> Load [] E.op = "see" -> See
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
