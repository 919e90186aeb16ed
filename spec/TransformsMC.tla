---------------------------- MODULE TransformsMC ----------------------------
(* Small bases, all histories of writes, grids and filters: what grids do to modes is a projection, *)
(* grids only ever lose modes, nothing that does not exist survives, filters are complementary.      *)
EXTENDS Transforms, FiniteSets, TLC
Range2(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
Each(s, F(_)) == Flat([i \in 1..Len(s) |-> F(s[i])])
Comps(kind, rank) ==
    LET sp == IF kind \in {"ball", "shell"} THEN <<-1, 1, 0>> ELSE <<-1, 1>>
    IN IF rank = 0 THEN <<(<<>>)>> ELSE Each(sp, LAMBDA a : <<(<<a>>)>>)
\* every stored position, including those of no mode
Positions(kind, rank) ==
    Each(Comps(kind, rank), LAMBDA c : Each(Range2(0, 1), LAMBDA m :
        Each(IF kind \in {"disk", "annulus"} THEN <<0>> ELSE Range2(0, 2), LAMBDA l :
            Each(IF kind = "sphere" THEN <<0>> ELSE Range2(0, 1), LAMBDA n : <<[c |-> c, m |-> m, l |-> l, n |-> n]>>))))
Mate(pos, i) == CHOOSE j \in 1..Len(pos) : pos[j].m = pos[i].m /\ pos[j].l = pos[i].l /\ pos[j].n = pos[i].n
                    /\ \A k \in 1..Len(pos[i].c) : pos[j].c[k] = -pos[i].c[k]
Config(kind, rank, real) ==
    LET pos == Positions(kind, rank)
    IN [kind |-> kind, real |-> real, pos |-> pos, mate |-> [i \in 1..Len(pos) |-> Mate(pos, i)],
        N |-> IF kind \in {"disk", "annulus"} THEN <<4, 2>> ELSE IF kind = "sphere" THEN <<4, 4>> ELSE <<4, 4, 2>>]
Grids == {<<2, 1, 1>>, <<4, 2, 2>>, <<4, 4, 1>>, <<2, 4, 2>>}
Shape(cfg, g) == IF Len(cfg.N) = 2 THEN <<g[1], g[2]>> ELSE g
VARIABLES cfg, cur, grids
vars == <<cfg, cur, grids>>
Unit(p, n) == [q \in 1..n |-> IF q = p THEN 2 ELSE 0]
Init == /\ cfg \in {TLCEval(Config(k, r, b)) : k \in {"disk", "annulus", "sphere", "shell", "ball"}, r \in {0, 1}, b \in BOOLEAN}
        /\ \E p \in 1..2 * Len(cfg.pos) : cur = Unit(p, 2 * Len(cfg.pos))
        /\ grids = {}
Go(g) == /\ cur' = TLCEval(Through(cfg, cur, Shape(cfg, g))) /\ grids' = grids \cup {g} /\ cfg' = cfg
High(g) == /\ grids # {} /\ cur' = TLCEval(Minus(cur, Through(cfg, cur, Shape(cfg, g)))) /\ UNCHANGED <<cfg, grids>>
Next == Cardinality(grids) < 2 /\ \E g \in Grids : Go(g) \/ High(g)
Spec == Init /\ [][Next]_vars
Seen == grids # {}
Projected == Seen => \A g \in grids : LET s == Shape(cfg, g) v == Through(cfg, cur, s) IN Through(cfg, v, s) = v
OnlyModes == Seen => \A p \in 1..Len(cur) : cur[p] # 0 => Exists(cfg, cfg.pos[(p + 1) \div 2])
OnlyValid == Seen => \A p \in 1..Len(cur) : cur[p] # 0 => Declared(cfg, p)
\* a fine grid keeps every declared mode of complex fields with an order below the Nyquist order
FineKeeps == ~cfg.real => \A p \in 1..Len(cur) : (Declared(cfg, p) /\ Abs(cfg.pos[(p + 1) \div 2].m) <= 1) =>
                 Through(cfg, cur, <<4, 8, 8>>)[p] = cur[p]
Commute == \A x, y \in Grids : LET s == Shape(cfg, x) t == Shape(cfg, y)
               IN Through(cfg, Through(cfg, cur, s), t) = Through(cfg, Through(cfg, cur, t), s)
=============================================================================
