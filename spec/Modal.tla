------------------------------- MODULE Modal -------------------------------
(* Mode amplitudes of a field over a product of one-dimensional bases.                          *)
(* A field value is a flat sequence of integers: tensor components, then the mode axes in row   *)
(* major order, then z entries per amplitude (2: real and imaginary part, 1: real).             *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
\* grid size of an axis at scale <<num, den>>: ceiling of the scaled size
GridSize(ax, s) == IF ax.n = 1 THEN 1 ELSE (s[1] * ax.n + s[2] - 1) \div s[2]
Wavenumber(ax, i) == IF ax.kind = "RF" THEN i \div 2 ELSE IF i <= ax.n \div 2 THEN i ELSE ax.n - i
\* modes (0-based) that a grid of m points represents
Keeps(ax, m, i) ==
    CASE ax.kind \in {"RF", "CF"} -> Wavenumber(ax, i) <= Min2((m - 1) \div 2, (ax.n - 1) \div 2)
      [] ax.kind = "J" -> i < m
      [] OTHER -> TRUE
RECURSIVE Stride(_, _, _)
Stride(axes, a, z) == IF a = Len(axes) THEN z ELSE axes[a + 1].n * Stride(axes, a + 1, z)
\* the set of flat positions lost when the axes in G are seen on grids of scales sc
Lost(axes, z, N, G, sc) ==
    LET st == [a \in 1..Len(axes) |-> Stride(axes, a, z)]
        drop == [a \in 1..Len(axes) |-> IF a \in G THEN {i \in 0..axes[a].n - 1 : ~Keeps(axes[a], GridSize(axes[a], sc[a]), i)} ELSE {}]
    IN {p \in 1..N : \E a \in G : ((p - 1) \div st[a]) % axes[a].n \in drop[a]}
Without(c, lost) == [p \in 1..Len(c) |-> IF p \in lost THEN 0 ELSE c[p]]
=============================================================================
