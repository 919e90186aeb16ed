----------------------------- MODULE FileOutput -----------------------------
(* Numbered file outputs of one handler, over any sequence of sessions and crashes.             *)
(* disk: the handler's set files in order, each [set, recs] with its complete records.          *)
(* tot : the write numbers that may have been used last (a session that ended in the middle of  *)
(*       a write may or may not have used that write's number).                                 *)
EXTENDS Integers, Sequences, FiniteSets
Start == [disk |-> <<>>, open |-> FALSE, set |-> 0, n |-> 0, mw |-> 0, tot |-> {0}]
MaxSet(d) == IF d = <<>> THEN 0 ELSE d[Len(d)].set
\* mw = 0 means no limit on the writes per set
Opened(s, mode, mw) ==
    IF mode = "overwrite"
    THEN [disk |-> <<>>, open |-> TRUE, set |-> 1, n |-> 0, mw |-> mw, tot |-> {0}]
    ELSE [s EXCEPT !.open = TRUE, !.set = MaxSet(s.disk) + 1, !.n = 0, !.mw = mw]
\* between sessions the user may move any set away, as long as a later one still has records
Removable(s) == {i \in 1..Len(s.disk) : ~s.open /\ \E j \in i+1..Len(s.disk) : s.disk[j].recs # <<>>}
Removed(s, set) == [s EXCEPT !.disk = SelectSeq(@, LAMBDA x : x.set # set)]
Ended(s) == [s EXCEPT !.open = FALSE]
Rolls(s) == s.mw # 0 /\ s.n + 1 > s.mw
NextSet(s) == IF Rolls(s) THEN s.set + 1 ELSE s.set
Touch(d, set) == IF MaxSet(d) = set THEN d ELSE Append(d, [set |-> set, recs |-> <<>>])
Put(d, r) == [d EXCEPT ![Len(d)].recs = Append(@, r)]
\* r.wn must be a legal next write number
WriteNumbers(s) == {x + 1 : x \in s.tot}
Written(s, r) == [s EXCEPT !.set = NextSet(s), !.n = IF Rolls(s) THEN 1 ELSE @ + 1,
                           !.disk = Put(Touch(@, NextSet(s)), r), !.tot = {r.wn}]
\* the session dies inside a write: nothing new, a new set without records, or the whole record
Crashes(s, rs) == LET dead == [Ended(s) EXCEPT !.tot = @ \cup WriteNumbers(s)] IN
    {dead, [dead EXCEPT !.disk = Touch(@, NextSet(s))]}
    \cup {[dead EXCEPT !.disk = Put(Touch(@, NextSet(s)), r), !.tot = {r.wn}] : r \in rs}
=============================================================================
