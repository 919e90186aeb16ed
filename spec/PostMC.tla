------------------------------- MODULE PostMC --------------------------------
(* Design: every write is visited once, in order, whatever the sets and the number of workers; and merging sets in any order,
   with failures of workers in between, loses no record of any set: a set is its virtual form, a moved virtual form, or merged. *)
EXTENDS Post
CONSTANTS Sets, Writes, Workers
VARIABLES w, P, stage, form, parts
vars == <<w, P, stage, form, parts>>
Init == w \in UNION {[1..n -> 0..Writes] : n \in 1..Sets} /\ P \in 1..Workers /\ stage = "hand" /\ form = [s \in DOMAIN w |-> "virtual"] /\ parts = [s \in DOMAIN w |-> TRUE]
C == [r \in 1..P |-> Calls(w, P, r - 1)]
H == [r \in 1..P |-> Dealt(Len(w), P, r - 1)]
Move(s) == form[s] = "virtual" /\ form' = [form EXCEPT ![s] = "moved"] /\ UNCHANGED parts
Copy(s) == form[s] = "moved" /\ form' = [form EXCEPT ![s] = "both"] /\ UNCHANGED parts
Drop(s) == form[s] = "both" /\ form' = [form EXCEPT ![s] = "merged"] /\ UNCHANGED parts
Clean(s) == form[s] = "merged" /\ parts[s] /\ parts' = [parts EXCEPT ![s] = FALSE] /\ UNCHANGED form
Small == Len(w) <= 2 /\ \A s \in DOMAIN w : w[s] <= 1
Next == Small /\ \E s \in DOMAIN w : (Move(s) \/ Copy(s) \/ Drop(s) \/ Clean(s)) /\ stage' = "merge" /\ UNCHANGED <<w, P>>
Spec == Init /\ [][Next]_vars
Visits == stage = "hand" => Once(w, C) /\ Inside(w, C) /\ Natural(C)
Hands == stage = "hand" => OnceSets(Len(w), H) /\ Ascending(H)
Kept == \A s \in DOMAIN w : parts[s] \/ form[s] = "merged"
=============================================================================
