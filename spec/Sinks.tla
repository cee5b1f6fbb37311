-------------------------------- MODULE Sinks --------------------------------
(* Gas on a line turning into sinks, and sinks taking up gas.  A search turns the densest candidate that no sink  *)
(* excludes into a sink, and starts again, until none is left or the permitted number is reached; each gas        *)
(* particle inside one or more sinks has one owner; an accreting sink takes all of its own gas, or some.          *)
(* What matters: mass, momentum and centre of mass are those of the beginning (to the tick), a particle is taken  *)
(* up once, no sink is born on top of another, and never more sinks than permitted.                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NG, X, Vmax, Radius, Cap, Smooth, Rule, Ticks
NoCap == 99
G == 1..NG
VARIABLES g, dead, s, t, phase, m0, p0, x0, apart
vars == <<g, dead, s, t, phase, m0, p0, x0, apart>>
Abs(a) == IF a < 0 THEN -a ELSE a
Sum(S, F(_)) == LET RECURSIVE H(_) H(T) == IF T = {} THEN 0 ELSE LET a == CHOOSE a \in T : TRUE IN F(a) + H(T \ {a}) IN H(S)
Ks(q) == 1..Len(q)
Mass(a, b) == Sum(G, LAMBDA i : a[i].m) + Sum(Ks(b), LAMBDA k : b[k].m)
Mom(a, b) == Sum(G, LAMBDA i : a[i].m * a[i].v) + Sum(Ks(b), LAMBDA k : b[k].p)
Moment(a, b) == Sum(G, LAMBDA i : a[i].m * a[i].x) + Sum(Ks(b), LAMBDA k : b[k].xm)
Dist(i, k, q, w) == Abs(g[i].x * q[k].m - q[k].xm) <= w * q[k].m
Init == /\ g \in [G -> [m : {2}, x : 0..X, v : (-Vmax)..Vmax]] /\ dead = {} /\ s = << >> /\ t = 0 /\ phase = "search" /\ apart = TRUE
        /\ m0 = Mass(g, s) /\ p0 = Mom(g, s) /\ x0 = Moment(g, s)
Star(i) == [m |-> g[i].m, p |-> g[i].m * g[i].v, xm |-> g[i].m * g[i].x]
(* the search: candidates are at minima of the potential (any subset of the gas); density falls with the number *)
Excluded(i, q, old) == \E k \in Ks(IF Rule = "oldsinks" THEN old ELSE q) : Dist(i, k, q, 2 * Radius)
Room(q, old) == Cap = NoCap \/ Len(IF Rule = "looseCap" THEN old ELSE q) < Cap
RECURSIVE Form(_, _, _, _)
Form(C, q, B, old) == LET F == {i \in C : ~Excluded(i, q, old)}
                          i == CHOOSE i \in F : \A j \in F : i <= j
                      IN IF F = {} \/ ~Room(q, old) THEN <<q, B>> ELSE Form(C \ {i}, Append(q, Star(i)), B \cup {i}, old)
Search == /\ phase = "search" /\ phase' = "accrete"
          /\ \E C \in SUBSET (G \ dead) :
               LET r == Form(C, s, {}, s) IN
                 /\ s' = r[1] /\ dead' = dead \cup r[2] /\ g' = [i \in G |-> IF i \in r[2] THEN [g[i] EXCEPT !.m = 0] ELSE g[i]]
                 /\ apart' = \A k \in (Len(s) + 1)..Len(r[1]) : \A j \in 1..(k - 1) : Abs(r[1][k].xm * r[1][j].m - r[1][j].xm * r[1][k].m) > 2 * Radius * r[1][j].m * r[1][k].m
          /\ UNCHANGED <<t, m0, p0, x0>>
(* accretion *)
Edible == IF Rule = "corpse" THEN G ELSE G \ dead
Inside(i) == {k \in Ks(s) : Dist(i, k, s, Radius)}
Accrete == /\ phase = "accrete" /\ phase' = "move"
           /\ \E own \in [{i \in Edible : Inside(i) # {}} -> Ks(s)], due \in SUBSET Ks(s), part \in SUBSET G :
                LET takes(i) == IF i \notin DOMAIN own THEN {} ELSE IF Rule = "shared" THEN Inside(i) \cap due ELSE {own[i]} \cap due
                    amount(i) == IF Smooth /\ i \in part THEN 1 ELSE IF Rule = "corpse" THEN 2 ELSE g[i].m
                    gone == {i \in G : takes(i) # {} /\ amount(i) = g[i].m}
                IN /\ \A i \in DOMAIN own : own[i] \in Inside(i)
                   /\ part \subseteq {i \in G : takes(i) # {} /\ g[i].m = 2} /\ (~Smooth => part = {})
                   /\ s' = [k \in Ks(s) |-> LET mine == {i \in G : k \in takes(i)} IN
                              [m |-> s[k].m + Sum(mine, LAMBDA i : amount(i)), p |-> s[k].p + Sum(mine, LAMBDA i : amount(i) * g[i].v), xm |-> s[k].xm + Sum(mine, LAMBDA i : amount(i) * g[i].x)]]
                   /\ dead' = dead \cup gone
                   /\ g' = [i \in G |-> IF takes(i) = {} \/ i \in dead THEN g[i] ELSE [g[i] EXCEPT !.m = IF @ = amount(i) THEN 0 ELSE @ - amount(i)]]
           /\ UNCHANGED <<t, m0, p0, x0, apart>>
Move == /\ phase = "move" /\ phase' = "search" /\ t < Ticks /\ t' = t + 1
        /\ g' = [i \in G |-> IF i \in dead THEN g[i] ELSE [g[i] EXCEPT !.x = @ + g[i].v]]
        /\ s' = [k \in Ks(s) |-> [s[k] EXCEPT !.xm = @ + s[k].p]]
        /\ UNCHANGED <<dead, m0, p0, x0, apart>>
Next == Search \/ Accrete \/ Move
Spec == Init /\ [][Next]_vars
MassKept == Mass(g, s) = m0
MomentumKept == Mom(g, s) = p0
CentreKept == Moment(g, s) = x0 + t * p0
DeadEmpty == \A i \in G : i \in dead <=> g[i].m = 0
Capped == Cap = NoCap \/ Len(s) <= Cap
Apart == apart
=============================================================================
