-------------------------------- MODULE Eigen --------------------------------
(* Eigenvalue problems with known integer spectra.

   Unknowns u_1..u_J and the system   lam * M u + L u = 0  with
       M = P E Q,   L = - P (D + d + e K + f i k) Q - P E Q Op
   P, Q unimodular integer matrices, E a 0/1 diagonal, D, e, f integer diagonals, K the (negative)
   Laplacian symbol of the separate directions, k a wavenumber, Op an operator whose eigenvalue on the
   homogeneous polynomials of degree n is q(n) = a0 + a1 n + a2 n(n-1) (it may also lower degrees), and
   d a parameter that can be reassigned between solves.
   In the group of wavenumber k the spectrum is { D_i + d + e_i K + i f_i k + q(n) : E_i = 1 }.

   The state of a solver is the parameter value each subproblem's matrices were built with.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Waves(n) == {k \in -n..n : 2*k <= n /\ -2*k < n}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Mul(A, B) == [i \in DOMAIN A |-> [j \in DOMAIN B[1] |-> SumSeq([k \in DOMAIN B |-> A[i][k] * B[k][j]])]]
Diag(d) == [i \in DOMAIN d |-> [j \in DOMAIN d |-> IF i = j THEN d[i] ELSE 0]]
q(Op, n) == Op[1] + Op[2]*n + Op[3]*n*(n-1)

\* ---- degrees of freedom of one unknown in a group: <<Laplacian symbol, wavenumber, degree>>
\* geo.kind  "cart": ax Fourier axes (kind "f", n) and polynomial axes (kind "p", n, d: with a boundary condition); -99 in a group marks a coupled axis
\*           "sphere": group <<m, ell>>, lmax, spins   "disk": <<m, *>>, nmax, spins   "ball": <<m, ell, *>>, nmax, regs
\*           "rad", "shell": annulus, shell: radial polynomials up to nmax for each of ncomp components
\* a polynomial axis with a boundary condition (bc) loses degree 0 and gains a tau unknown per unknown
RECURSIVE Dofs(_, _, _)
Dofs(ax, g, full) == IF ax = <<>> THEN {<<0, 0, 0, <<>> >>} ELSE
    LET rest == Dofs(Tail(ax), Tail(g), full) a == Head(ax) IN
    CASE a.k = "f" -> {<<t[1] + k*k, (IF a.d THEN k ELSE t[2]), t[3], <<k>> \o t[4]>> : k \in (IF Head(g) = -99 THEN Waves(a.n) ELSE {Head(g)}), t \in rest}
      [] a.k = "p" -> {<<t[1], t[2], n, <<n>> \o t[4]>> : n \in (IF a.d THEN (IF full THEN 0..a.n ELSE 1..a.n-1) ELSE 0..a.n-1), t \in rest}
\* a multiset of <<Laplacian symbol, wavenumber, degree>> as a set with a distinguishing last entry
GroupDofs(G, g, full) ==
    CASE G.kind = "cart" -> Dofs(G.ax, g, full)
      [] G.kind = "sphere" -> UNION {{<<l*(l+1) - G.spins[c]*G.spins[c], 0, 0, <<l, c>> >> :
              l \in {x \in 0..G.lmax : x >= Abs(g[1]) /\ x >= Abs(G.spins[c]) /\ (g[2] = -99 \/ g[2] = x)}} : c \in DOMAIN G.spins}
      [] G.kind = "shell" -> {<<0, 0, n, <<n, c>> >> : n \in 0..G.nmax,
              c \in {x \in DOMAIN G.regs : g[2] + G.regs[x] >= 0 /\ ~(g[2] = 0 /\ G.regs[x] = 0 /\ Len(G.regs) > 1)}}
      [] G.kind = "rad" -> {<<0, 0, n, <<n, c>> >> : n \in 0..G.nmax, c \in 1..G.ncomp}
      [] G.kind = "disk" -> UNION {{<<0, 0, Abs(g[1] + G.spins[c]) + 2*(n - Abs(g[1]) \div 2), <<n, c>> >> : n \in {x \in 0..G.nmax : x >= Abs(g[1]) \div 2}} : c \in DOMAIN G.spins}
      [] G.kind = "ball" -> UNION {{<<0, 0, g[2] + G.regs[c] + 2*(n - g[2] \div 2), <<n, c>> >> : n \in {x \in 0..G.nmax : x >= g[2] \div 2}} :
              c \in {x \in DOMAIN G.regs : g[2] + G.regs[x] >= 0 /\ ~(g[2] = 0 /\ G.regs[x] = 0 /\ Len(G.regs) > 1)}}

\* ---- spectrum as a set of <<re, im, label>>
Spectrum(Pb, par, g) == LET Z == TLCEval(GroupDofs(Pb.geo, g, FALSE)) IN
    UNION {{<<Pb.D[i] + par + Pb.e[i]*z[1] + q(Pb.op, z[3]), Pb.f[i]*z[2], <<i, z[4], z[3]>> >> : z \in Z} : i \in {j \in DOMAIN Pb.E : Pb.E[j] = 1}}
Mult(S, re, im) == Cardinality({s \in S : s[1] = re /\ s[2] = im})
\* the degree of every mode with this value is at most cap
UpTo(S, v, cap) == \A s \in S : s[1] = v[1] /\ s[2] = v[2] => s[3][3] <= cap
Values(S) == {<<s[1], s[2]>> : s \in S}
Size(Pb, g) == Len(Pb.E) * Cardinality(GroupDofs(Pb.geo, g, TRUE))

Hits(obs, v) == Cardinality({i \in DOMAIN obs : obs[i][1] = v[1] /\ obs[i][2] = v[2]})
\* the whole finite spectrum with multiplicities
Whole(S, obs) == Len(obs) = Cardinality(S) /\ \A v \in Values(S) : Hits(obs, v) = Mult(S, v[1], v[2])
\* the n values nearest to a target (in tenths), for simple spectra
Dist(v, t) == (10*v[1] - t[1])*(10*v[1] - t[1]) + (10*v[2] - t[2])*(10*v[2] - t[2])
Nearest(S, obs, n, t) == /\ Len(obs) = n /\ \A i \in DOMAIN obs : <<obs[i][1], obs[i][2]>> \in Values(S)
                         /\ \A i, j \in DOMAIN obs : i # j => <<obs[i][1], obs[i][2]>> # <<obs[j][1], obs[j][2]>>
                         /\ \A v \in Values(S) : Hits(obs, v) = 0 => \A i \in DOMAIN obs : Dist(v, t) >= Dist(obs[i], t)
=============================================================================
