--------------------------------- MODULE Eqn ----------------------------------
(* Which equations a problem class accepts, the parts it splits them into, and what the text of an
   equation denotes.  An equation is a pair of registers of Calc (or a number on the right).

   vars: registers of the problem variables; aux: the time or eigenvalue register.                 *)
EXTENDS Calc

NoV == <<>>
Sig(G, S, k) == Val(G, S, k, NoV).sig
Dom(G, S, k) == Val(G, S, k, NoV).dom
Inside(d, D) == \A a \in DOMAIN d : d[a] => D[a]
ConstDom(G) == [a \in 1..G.nax |-> FALSE]

(* The right-hand side: [k |-> 0, num |-> n] is the number n, [k |-> register, num |-> 0] an operand *)
RSig(G, S, L, r) == IF r.k = 0 THEN Sig(G, S, L) ELSE Sig(G, S, r.k)   \* a number stands for every component
RDom(G, S, r) == IF r.k = 0 THEN ConstDom(G) ELSE Dom(G, S, r.k)
RHas(S, r, vs) == r.k # 0 /\ Reach(S, r.k, vs)

Fits(G, S, L, r) == RSig(G, S, L, r) = Sig(G, S, L)
Accept(G, S, cls, L, r, vars, aux) ==
    /\ Fits(G, S, L, r)
    /\ CASE cls = "LBVP" -> LinearIn(S, L, vars, FALSE) /\ ~RHas(S, r, vars) /\ Inside(RDom(G, S, r), Dom(G, S, L))
         [] cls = "IVP" -> LinearIn(S, L, vars, FALSE) /\ ~Reach(S, L, {aux}) /\ FirstOrder(S, L) /\ ~RHas(S, r, {0}) /\ Inside(RDom(G, S, r), Dom(G, S, L))
         [] cls = "EVP" -> LinearIn(S, L, vars, FALSE) /\ LinearIn(S, L, {aux}, TRUE) /\ r.k = 0 /\ r.num = 0
         [] OTHER -> TRUE
EqDom(G, S, L, r) == Or(Dom(G, S, L), RDom(G, S, r))

(* The parts of an accepted equation, as nodes to append to the store *)
Node0(f, a, p) == [f |-> f, a |-> a, p |-> p, q |-> <<>>]
Marker(cls, aux) == IF cls = "EVP" THEN aux ELSE 0
MassPart(cls, L, aux) == Node0("with", <<L>>, <<Marker(cls, aux)>>)
StiffPart(cls, L, aux) == Node0("without", <<L>>, <<Marker(cls, aux)>>)

(* ---- text ----  an equation is a sequence of characters; the equals signs outside of parentheses *)
RECURSIVE Levels(_, _, _)
Levels(cs, i, lev) == IF i > Len(cs) THEN 0 ELSE
    LET nl == CASE cs[i] = "(" -> lev + 1 [] cs[i] = ")" -> lev - 1 [] OTHER -> lev IN
    (IF cs[i] = "=" /\ lev = 0 THEN 1 ELSE 0) + Levels(cs, i + 1, nl)
TopEquals(cs) == Levels(cs, 1, 0)

(* ---- names ----  scopes in order of precedence: variables, the user's namespace, built-in operators.
   Each is a function from names to registers (positive) or operators (negative).                    *)
RECURSIVE Find(_, _)
Find(scopes, n) == IF scopes = <<>> THEN 0 ELSE IF n \in DOMAIN scopes[1] THEN scopes[1][n] ELSE Find(Tail(scopes), n)
=============================================================================
