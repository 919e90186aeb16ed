----------------------------- MODULE Transforms -----------------------------
(* Mode amplitudes of tensor fields on curvilinear bases, and what passing through a grid does.  *)
(* A mode is [c, m, l, n]: tensor component (a sequence of spins, or of regularities in balls     *)
(* and shells), azimuthal order, degree, radial index as stored (l = 0 on disks and annuli).      *)
(* cfg: kind, real, N (coefficient shape: azimuth, [colatitude,] [radius]), pos (the modes),      *)
(* mate (index of the mode whose spins are all opposite).  A field is a flat sequence: real and    *)
(* imaginary part of the complex amplitude of each mode.                                          *)
EXTENDS Integers, Sequences, TLC
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(c) == IF c = <<>> THEN 0 ELSE c[1] + Sum(Tail(c))
RECURSIVE Zeros(_)
Zeros(c) == IF c = <<>> THEN 0 ELSE (IF c[1] = 0 THEN 1 ELSE 0) + Zeros(Tail(c))
IsReg(cfg) == cfg.kind \in {"shell", "ball", "rshell", "rball"}
Axial(cfg) == cfg.kind \in {"rshell", "rball"}
Spherical(cfg) == IsReg(cfg) \/ cfg.kind = "sphere"
Lmax(cfg) == IF Axial(cfg) THEN 0 ELSE IF cfg.real THEN Max(0, cfg.N[2] - 2) ELSE cfg.N[2] - 1
\* coupling the indices of a tensor one after the other, from the last, to a scalar of degree l
RECURSIVE Couples(_, _)
Couples(l, c) == IF c = <<>> THEN TRUE
                 ELSE LET a == c[Len(c)] w == l + a
                      IN w >= 0 /\ ~(a = 0 /\ w = 0) /\ Couples(w, SubSeq(c, 1, Len(c) - 1))
\* modes that exist: triangular truncations, spins within the degree, tensor harmonics that exist
Exists(cfg, q) ==
    /\ Spherical(cfg) => Abs(q.m) <= q.l /\ q.l <= Lmax(cfg)
    /\ cfg.kind = "sphere" => Abs(Sum(q.c)) <= q.l
    /\ IsReg(cfg) => Couples(q.l, q.c)
    /\ cfg.kind = "disk" => q.n >= Abs(q.m) \div 2 /\ q.n < cfg.N[2]
    /\ cfg.kind = "annulus" => q.n < cfg.N[2]
    /\ cfg.kind \in {"shell", "rshell"} => q.n < cfg.N[3]
    /\ cfg.kind \in {"ball", "rball"} => q.n >= q.l \div 2 /\ q.n < cfg.N[3]
\* modes whose products with themselves the quadrature of a grid of shape g integrates exactly
Resolved(cfg, q, g) ==
    /\ Exists(cfg, q)
    /\ ~Axial(cfg) => Abs(q.m) <= Min((g[1] - 1) \div 2, (cfg.N[1] - 1) \div 2)
    /\ (Spherical(cfg) /\ ~Axial(cfg)) => q.l < g[2]
    /\ cfg.kind = "annulus" => q.n < g[2]
    /\ cfg.kind = "disk" => 2 * (q.n - Abs(q.m) \div 2) + Abs(q.m + Sum(q.c)) <= 2 * g[2] - 1
    /\ cfg.kind \in {"shell", "rshell"} => q.n < g[3]
    /\ cfg.kind \in {"ball", "rball"} => 2 * (q.n - q.l \div 2) + q.l + Sum(q.c) <= 2 * g[3] - 1
Re(v, i) == v[2 * i - 1]
Im(v, i) == v[2 * i]
Odd(x) == x % 2 = 1
\* the axisymmetric part of a real field has real coordinate components: the amplitudes of opposite
\* spins are conjugate (up to the sign of the harmonics), those of regularities real or imaginary
RealPart(cfg, v, i) ==
    IF ~(cfg.real /\ cfg.pos[i].m = 0) THEN <<Re(v, i), Im(v, i)>>
    ELSE IF IsReg(cfg) THEN IF Odd(Zeros(cfg.pos[i].c)) THEN <<0, Im(v, i)>> ELSE <<Re(v, i), 0>>
    ELSE LET j == cfg.mate[i]
             e == IF cfg.kind = "sphere" /\ Odd(Abs(Sum(cfg.pos[i].c))) THEN -1 ELSE 1
         IN <<(Re(v, i) + e * Re(v, j)) \div 2, (Im(v, i) - e * Im(v, j)) \div 2>>
Through(cfg, v, g) ==
    TLCEval([p \in 1..Len(v) |-> LET i == (p + 1) \div 2
                         IN IF ~Resolved(cfg, cfg.pos[i], g) THEN 0
                            ELSE RealPart(cfg, v, i)[IF Odd(p) THEN 1 ELSE 2]])
Minus(v, w) == [p \in 1..Len(v) |-> v[p] - w[p]]
\* a factor for each degree (of the scalar harmonics coupled, for tensors in balls and shells)
Scaled(cfg, v, f) == [p \in 1..Len(v) |-> LET q == cfg.pos[(p + 1) \div 2] IN IF Exists(cfg, q) THEN f[q.l + (IF IsReg(cfg) THEN Sum(q.c) ELSE 0) + 1] * v[p] ELSE 0]
\* what the code must declare valid: the modes that exist, but for the imaginary part of what is real
\* by itself (axisymmetric scalars on disks and annuli; degree zero, up to vectors, on spheres)
Declared(cfg, p) ==
    LET q == cfg.pos[(p + 1) \div 2] rank == Len(q.c) IN
    /\ Exists(cfg, q)
    /\ ~(cfg.real /\ ~Odd(p) /\ (IF Spherical(cfg) THEN q.l = 0 /\ rank <= 1 ELSE q.m = 0 /\ rank = 0))
=============================================================================
