---------------------------- MODULE FileOutputMC ----------------------------
EXTENDS FileOutput, TLC
CONSTANTS MaxWrites, MaxSessions, MaxCrashes, MaxRemovals
VARIABLES s, log, v, ns, nc, nr, last
vars == <<s, log, v, ns, nc, nr, last>>
Init == s = Start /\ log = <<>> /\ v = 0 /\ ns = 0 /\ nc = 0 /\ nr = 0 /\ last = "init"
Open == /\ ~s.open /\ ns < MaxSessions
        /\ \E mode \in {"overwrite", "append"}, mw \in {0, 1, 2, 3} :
              s' = Opened(s, mode, mw) /\ log' = (IF mode = "overwrite" THEN <<>> ELSE log)
                 /\ last' = mode
        /\ ns' = ns + 1 /\ UNCHANGED <<v, nc, nr>>
Write == /\ s.open /\ v < MaxWrites
         /\ \E wn \in WriteNumbers(s) : LET r == [wn |-> wn, v |-> v + 1] IN s' = Written(s, r) /\ log' = Append(log, r)
         /\ v' = v + 1 /\ last' = "write" /\ UNCHANGED <<ns, nc, nr>>
End == s.open /\ s' = Ended(s) /\ last' = "end" /\ UNCHANGED <<log, v, ns, nc, nr>>
Crash == /\ s.open /\ nc < MaxCrashes /\ v < MaxWrites
         /\ \E wn \in WriteNumbers(s) : LET r == [wn |-> wn, v |-> v + 1] IN
              \E c \in Crashes(s, {r}) : s' = c /\ last' = "crash" /\ log' = (IF \E i \in 1..Len(c.disk) : \E j \in 1..Len(c.disk[i].recs) : c.disk[i].recs[j].v = v + 1 THEN Append(log, r) ELSE log)
         /\ v' = v + 1 /\ nc' = nc + 1 /\ UNCHANGED <<ns, nr>>
Remove == /\ nr < MaxRemovals
          /\ \E i \in Removable(s) :
               LET gone == s.disk[i].recs IN
               /\ s' = Removed(s, s.disk[i].set)
               /\ log' = SelectSeq(log, LAMBDA r : \A j \in 1..Len(gone) : gone[j] # r)
          /\ nr' = nr + 1 /\ last' = "remove" /\ UNCHANGED <<v, ns, nc>>
Next == Open \/ Write \/ End \/ Crash \/ Remove
Spec == Init /\ [][Next]_vars
RECURSIVE Cat(_)
Cat(d) == IF d = <<>> THEN <<>> ELSE Head(d).recs \o Cat(Tail(d))
Holds == Cat(s.disk) = log
SetsConsecutive == /\ nr = 0 => \A i \in 1..Len(s.disk) : s.disk[i].set = i
                   /\ \A i \in 1..Len(s.disk)-1 : s.disk[i].set < s.disk[i+1].set
NumbersIncrease == \A i \in 1..Len(log)-1 : log[i+1].wn > log[i].wn
NumbersConsecutive == nc = 0 /\ nr = 0 => \A i \in 1..Len(log) : log[i].wn = i
Gaps == log # <<>> /\ nr = 0 => log[Len(log)].wn <= Len(log) + nc
WithinLimit == (s.open /\ s.mw # 0) => s.n <= s.mw /\ (s.n > 0 => Len(s.disk[Len(s.disk)].recs) = s.n)
IsPrefixD(a, b) == /\ Len(a) <= Len(b)
                   /\ \A i \in 1..Len(a) : a[i].set = b[i].set /\ Len(a[i].recs) <= Len(b[i].recs)
                        /\ a[i].recs = SubSeq(b[i].recs, 1, Len(a[i].recs))
NothingLost == [][last' \notin {"overwrite", "remove"} => IsPrefixD(s.disk, s'.disk)]_vars
\* only the last set of a session may be short
=============================================================================
