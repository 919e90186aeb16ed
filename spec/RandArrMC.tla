------------------------------ MODULE RandArrMC ------------------------------
(* Drawing the stream in chunks, keeping only the requested elements, gives every request its own   *)
(* draw for any chunk size; the chunk may be trimmed when all requests fall into the first.          *)
EXTENDS RandArr
CONSTANTS N, MaxChunk
VARIABLES want, chunk, drawn, vals
vars == <<want, chunk, drawn, vals>>
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Trim(c, W) == IF 1 + MaxOf(W) < c THEN 1 + MaxOf(W) ELSE c
Init == /\ want \in (SUBSET (0..N-1)) \ {{}} /\ chunk \in {Trim(c, want) : c \in 1..MaxChunk}
        /\ drawn = 0 /\ vals = [i \in want |-> -1]
\* one chunk: draws drawn .. drawn+chunk-1 of the stream
Draw == /\ drawn <= MaxOf(want)
        /\ vals' = [i \in want |-> IF i \div chunk = drawn \div chunk THEN drawn + (i % chunk) ELSE vals[i]]
        /\ drawn' = drawn + chunk /\ UNCHANGED <<want, chunk>>
Spec == Init /\ [][Draw]_vars /\ WF_vars(Draw)
Right == drawn > MaxOf(want) => \A i \in want : vals[i] = i
Never == \A i \in want : vals[i] \in {-1, i}
Frugal == drawn <= MaxOf(want) + chunk
Done == <>(\A i \in want : vals[i] = i)
\* blocks tile: the draws of a box are those of its elements
BoxLaw == LET sh == <<2, 3, 2>> IN \A A \in SUBSET (0..2) :
    LET q == CHOOSE s \in [1..Cardinality(A) -> A] : \A i, j \in 1..Cardinality(A) : i < j => s[i] < s[j]
        d == Draws(<<<<0, 1>>, q, <<1>>>>, sh)
    IN /\ Len(d) = 2 * Cardinality(A)
       /\ {d[i] : i \in 1..Len(d)} = {Flat(<<i, a, 1>>, sh) : i \in 0..1, a \in A}
=============================================================================
