------------------------------- MODULE SpmdMC --------------------------------
(* Design: repeated solves of a problem with coefficients, from any mesh, on asynchronous processes.
   A process solves for asked-for groups, builds what it has not built (which gathers coefficients from everyone), evaluates the
   right-hand side (a transpose: everyone), and solves its groups.  Every run ends, and ends where one process would.
   Join = "any": the gather is joined if any process has something to build; "own": only by processes that have.          *)
EXTENDS Spmd
CONSTANTS Gs, Ps, Rounds, Join
VARIABLES G, P, ask, pc, round, built, x, y, rhs, at, vote
vars == <<G, P, ask, pc, round, built, x, y, rhs, at, vote>>
\* ask[k] = groups whose solution is asked for in round k, by number
F(prev, g, k) == (2 * prev[g] + prev[0] + k + g) % 31
RECURSIVE Serial(_, _)
Serial(a, k) == IF k = 0 THEN [g \in 0..(G - 1) |-> g] ELSE LET p == Serial(a, k - 1) IN [g \in 0..(G - 1) |-> IF g \in a[k] THEN F(p, g, k) ELSE p[g]]
Ranks == 0..(P - 1)
Init == /\ G \in Gs /\ P \in Ps /\ ask \in [1..Rounds -> SUBSET (0..(G - 1))]
        /\ pc = [r \in Ranks |-> "vote"] /\ round = [r \in Ranks |-> 1] /\ built = [r \in Ranks |-> {}]
        /\ x = [g \in 0..(G - 1) |-> g] /\ y = x /\ rhs = [g \in 0..(G - 1) |-> 0] /\ at = [r \in Ranks |-> "no"] /\ vote = [r \in Ranks |-> FALSE]
Todo(r) == (Groups(G, P, r) \cap ask[round[r]]) \ built[r]
Same == UNCHANGED <<G, P, ask>>
\* arrive at a collective; leave together when everyone is there
Arrive(r, from, c) == pc[r] = from /\ at[r] = "no" /\ at' = [at EXCEPT ![r] = c] /\ Same /\ UNCHANGED <<pc, round, built, x, y, rhs, vote>>
All(c) == \A r \in Ranks : at[r] = c
Vote(r) == IF Join = "any" THEN Arrive(r, "vote", "reduce")
           ELSE pc[r] = "vote" /\ pc' = [pc EXCEPT ![r] = IF Todo(r) # {} THEN "gather" ELSE "rhs"] /\ Same /\ UNCHANGED <<round, built, x, y, rhs, at, vote>>
Reduce == All("reduce") /\ LET any == \E r \in Ranks : Todo(r) # {} IN
    pc' = [r \in Ranks |-> IF any THEN "gather" ELSE "rhs"] /\ at' = [r \in Ranks |-> "no"] /\ Same /\ UNCHANGED <<round, built, x, y, rhs, vote>>
Gather == All("gather") /\ built' = [r \in Ranks |-> built[r] \cup Todo(r)] /\ pc' = [r \in Ranks |-> "rhs"] /\ at' = [r \in Ranks |-> "no"] /\ Same /\ UNCHANGED <<round, x, y, rhs, vote>>
Transpose == All("rhs") /\ rhs' = [g \in 0..(G - 1) |-> F(x, g, round[0])] /\ pc' = [r \in Ranks |-> "solve"] /\ at' = [r \in Ranks |-> "no"] /\ Same /\ UNCHANGED <<round, built, x, y, vote>>
Solve(r) == /\ pc[r] = "solve" /\ y' = [g \in 0..(G - 1) |-> IF g \in Groups(G, P, r) \cap ask[round[r]] /\ g \in built[r] THEN rhs[g] ELSE y[g]]
            /\ pc' = [pc EXCEPT ![r] = IF round[r] = Rounds THEN "done" ELSE "sync"] /\ Same /\ UNCHANGED <<round, built, x, rhs, at, vote>>
\* the solutions are read by everyone only through later transposes
Sync == (\A r \in Ranks : pc[r] = "sync") /\ x' = y /\ pc' = [r \in Ranks |-> "vote"] /\ round' = [r \in Ranks |-> round[r] + 1] /\ Same /\ UNCHANGED <<built, y, rhs, at, vote>>
Done == (\A r \in Ranks : pc[r] = "done") /\ UNCHANGED vars
Next == (\E r \in Ranks : Vote(r) \/ Arrive(r, "gather", "gather") \/ Arrive(r, "rhs", "rhs") \/ Solve(r)) \/ Reduce \/ Gather \/ Transpose \/ Sync \/ Done
Spec == Init /\ [][Next]_vars
Partition == \A g \in 0..(G - 1) : Cardinality({r \in Ranks : g \in Groups(G, P, r)}) = 1
Agrees == (\A r \in Ranks : pc[r] = "done") => y = Serial(ask, Rounds)
=============================================================================
