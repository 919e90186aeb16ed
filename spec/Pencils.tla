------------------------------- MODULE Pencils -------------------------------
(* Subproblems ("pencils"): how a solver splits the modes of its variables and equations.

   An element of a field is <<component, mode numbers per axis, part per axis>>; the part separates
   the two members of a cosine/sine (real/imaginary) pair.  A field V is described by
     cs    coordinate system of each tensor index: [dim, spin, reg] with the spin weight and the radial
           regularity step of every component (zeros where the system has neither)
     ax    per axis [k |-> kind, n |-> size], kinds
             const  no dependence              rf / cf   real / complex Fourier        jac  polynomials
             azr / azc  azimuth of a curvilinear basis, real / complex
             disk / annu   radius over an azimuth         colat  colatitude over an azimuth
             ball / shell  radius over a colatitude
   and Valid(V) is the set of elements that exist in its bases.

   A pencil is a matrix of elements: its columns are the mode groups solved with one matrix, its rows
   the degrees of freedom.  The pencils of all processes partition Valid(V).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Waves(n) == {k \in -n..n : 2*k <= n /\ -2*k < n}
AxModes(a) == CASE a.k = "const" -> {<<0, 0>>}
                [] a.k \in {"rf", "azr"} -> {<<k, p>> : k \in 0..(a.n \div 2)-1, p \in 0..1}
                [] a.k \in {"cf", "azc"} -> {<<k, 0>> : k \in Waves(a.n)}
                [] OTHER -> {<<k, 0>> : k \in 0..a.n-1}
RECURSIVE Cross(_)
Cross(ax) == IF ax = <<>> THEN {<<>>} ELSE {<<m>> \o t : m \in AxModes(Head(ax)), t \in Cross(Tail(ax))}
RECURSIVE Comps(_)
Comps(cs) == IF cs = <<>> THEN {<<>>} ELSE {<<i>> \o t : i \in 1..Head(cs).dim, t \in Comps(Tail(cs))}

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Spin(V, c) == Sum([i \in 1..Len(V.cs) |-> V.cs[i].spin[c[i]]])
\* walk from ell over the steps of the component, last index first: never below zero, no 0 -> 0 step
RECURSIVE Walk(_, _)
Walk(l, steps) == IF steps = <<>> THEN TRUE
    ELSE LET d == steps[Len(steps)] w == l + d IN w >= 0 /\ ~(d = 0 /\ w = 0) /\ Walk(w, SubSeq(steps, 1, Len(steps)-1))
Allowed(V, c, l) == Walk(l, [i \in 1..Len(V.cs) |-> V.cs[i].reg[c[i]]])

Kinds(V) == {V.ax[a].k : a \in DOMAIN V.ax}
AxisOf(V, ks) == CHOOSE a \in DOMAIN V.ax : V.ax[a].k \in ks
ValidModes(V, c, M) ==
    LET rank == Len(V.cs)  K == Kinds(V)
        az == {"azr", "azc"}  ra == {"disk", "annu", "ball", "shell"}
        m == IF K \cap az = {} THEN 0 ELSE M[AxisOf(V, az)][1]
        p == IF K \cap az = {} THEN 0 ELSE M[AxisOf(V, az)][2]
        l == IF "colat" \in K THEN M[AxisOf(V, {"colat"})][1] ELSE 0
        n == IF K \cap ra = {} THEN 0 ELSE M[AxisOf(V, ra)][1]
    IN /\ \A a \in DOMAIN V.ax : V.ax[a].k = "rf" => M[a] # <<0, 1>>
       /\ IF "colat" \in K
          THEN /\ l >= Abs(m)
               /\ K \cap {"ball", "shell"} = {} => l >= Abs(Spin(V, c))
               /\ K \cap {"ball", "shell"} # {} => Allowed(V, c, l)
               /\ "ball" \in K => n >= l \div 2
               /\ rank <= 1 => ~(l = 0 /\ p = 1)
          ELSE /\ "disk" \in K => n >= Abs(m) \div 2
               /\ rank = 0 => ~(m = 0 /\ p = 1)
Elem(c, M) == <<c, [a \in DOMAIN M |-> M[a][1]], [a \in DOMAIN M |-> M[a][2]]>>
Valid(V) == UNION {{Elem(c, M) : M \in {x \in Cross(V.ax) : ValidModes(V, c, x)}} : c \in Comps(V.cs)}

\* ---- equations: the elements of their field on the groups their condition admits
Holds(cond, e) == cond.ax = 0 \/ LET k == e[2][cond.ax] IN
    CASE cond.op = "==" -> k = cond.k [] cond.op = "!=" -> k # cond.k [] cond.op = "<=" -> k <= cond.k [] cond.op = ">" -> k > cond.k
EqValid(V, cond) == {e \in Valid(V) : Holds(cond, e)}

\* ---- pencils: group g gives the mode number on every separate axis, coupled axes are free
Belongs(V, e, g, coupled) == \A a \in DOMAIN g : coupled[a] \/ e[2][a] = g[a]
\* what identifies a row of a pencil across its columns
Profile(e, coupled) == <<e[1], [a \in DOMAIN coupled |-> IF coupled[a] THEN e[2][a] ELSE 0], e[3]>>
Members(S, g, coupled) == {e \in S : \A a \in DOMAIN g : coupled[a] \/ e[2][a] = g[a]}
=============================================================================
