-------------------------- MODULE FileOutputTrace ---------------------------
EXTENDS FileOutput, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, st, bad
vars == <<ti, l, st, bad>>
T == Traces[ti]
E == T.ev[l]
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ st = Start
Last(d) == d[Len(d)].recs[Len(d[Len(d)].recs)]
Observed == E.disk
HasNew == Observed # <<>> /\ Observed[Len(Observed)].recs # <<>> /\ [it |-> Last(Observed).it, t |-> Last(Observed).t, dt |-> Last(Observed).dt, v |-> Last(Observed).v] = E.rec
Rec == Last(Observed)
Candidates ==
    CASE E.op = "open"  -> {Opened(st, E.mode, E.mw)}
      [] E.op = "remove" -> {Removed(st, E.set)}
      [] E.op = "end"   -> {Ended(st)}
      [] E.op = "write" -> IF HasNew /\ Rec.wn \in WriteNumbers(st) THEN {Written(st, Rec)} ELSE {}
      [] E.op = "crash" -> Crashes(st, IF HasNew /\ Rec.wn \in WriteNumbers(st) THEN {Rec} ELSE {})
Match == {c \in Candidates : c.disk = Observed}
Next == /\ bad = {} /\ l <= Len(T.ev)
        /\ bad' = (IF Match = {} THEN {<<E.op, "files", Observed, "before", st.disk, "last numbers", st.tot>>} ELSE {})
                  \cup (IF E.others THEN {} ELSE {<<"a file of another origin was changed">>})
                  \cup (IF E.meta THEN {} ELSE {<<"file metadata">>})
        /\ st' = IF Match = {} THEN st ELSE CHOOSE c \in Match : TRUE
        /\ l' = l + 1 /\ ti' = ti
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
