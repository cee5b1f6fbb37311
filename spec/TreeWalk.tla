------------------------------ MODULE TreeWalk ------------------------------
(* Why walking the tree gives what Interactions demands: a two-level tree over N particles on a line or ring of *)
(* L sites keeps per cell the box of its particles (bb), the box of their kernels (hb) and its mass (m). The    *)
(* summaries are copies, refreshed only by Stock and by Extent; particles move, change kernel radius and die    *)
(* in between. The order of these operations in a step is what makes the walks complete.                       *)
EXTENDS Integers, FiniteSets
CONSTANTS N, L, RMax, Ring,      \* Ring: periodic
          UseExtent,             \* refresh hb after the density pass (UpdateAllHmaxValues)
          UseStock,              \* refresh everything after particles have moved
          Rebuild                \* build again after a particle has died
VARIABLES x, R, dead, home, cells, phase
vars == <<x, R, dead, home, cells, phase>>
Part == 1..N
Leaves == {1, 2}
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Shifts == IF Ring THEN {0 - L, 0, L} ELSE {0}
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
Max(S) == CHOOSE a \in S : \A b \in S : a >= b
Live == {i \in Part : ~dead[i]}
Of(hm, dd, c) == {i \in Part : hm[i] = c /\ ~dd[i]}
BB(S) == IF S = {} THEN <<>> ELSE <<Min({x[i] : i \in S}), Max({x[i] : i \in S})>>
HB(S, r) == IF S = {} THEN <<>> ELSE <<Min({x[i] - r[i] : i \in S}), Max({x[i] + r[i] : i \in S})>>
Summary(S) == [bb |-> BB(S), hb |-> HB(S, R), m |-> Cardinality(S), ids |-> S]
Stocked(hm) == [c \in Leaves |-> Summary(Of(hm, dead, c))]
Overlap(a, b) == a # <<>> /\ b # <<>> /\ \E s \in Shifts : a[1] + s <= b[2] /\ b[1] <= a[2] + s
Dist(i, j) == Min({Abs(x[i] + s - x[j]) : s \in Shifts})
(* what must be found *)
Gather(i, r) == {j \in Live : Dist(i, j) < r}
Both(i) == {j \in Live : Dist(i, j) < R[i] \/ Dist(i, j) < R[j]}
(* what is found: cells whose box overlaps are opened, then particles are tested *)
WalkGather(c, r) == UNION {cells[d].ids : d \in {d \in Leaves : Overlap(<<cells[c].bb[1] - r, cells[c].bb[2] + r>>, cells[d].bb)}}
WalkBoth(c) == UNION {cells[d].ids : d \in {d \in Leaves : Overlap(cells[c].hb, cells[d].bb) \/ Overlap(cells[c].bb, cells[d].hb)}}
(* gravity: cells that cannot overlap may be taken as a whole if they are far enough *)
Whole(c) == {d \in Leaves : d # c /\ cells[d].ids # {} /\ ~Overlap(cells[c].hb, cells[d].bb) /\ ~Overlap(cells[c].bb, cells[d].hb)}

Init == /\ x \in [Part -> 0..(L-1)] /\ R = [i \in Part |-> 1] /\ dead = [i \in Part |-> FALSE]
        /\ home \in [Part -> Leaves] /\ cells = Stocked(home) /\ phase = "stocked"
(* densities: kernel radii are found from complete gather lists *)
Density == /\ phase = "stocked" /\ phase' = "sized"
           /\ R' \in [Part -> 1..RMax]
           /\ UNCHANGED <<x, dead, home, cells>>
Extent == /\ phase = "sized" /\ phase' = "extended"
          /\ cells' = IF UseExtent THEN [c \in Leaves |-> [cells[c] EXCEPT !.hb = HB(Of(home, dead, c), R)]] ELSE cells
          /\ UNCHANGED <<x, R, dead, home>>
Forces == phase = "extended" /\ phase' = "forced" /\ UNCHANGED <<x, R, dead, home, cells>>
Die == /\ phase = "forced" /\ \E i \in Live : Cardinality(Live) > 1 /\ dead' = [dead EXCEPT ![i] = TRUE]
       /\ phase' = "died" /\ UNCHANGED <<x, R, home, cells>>
Move == /\ phase \in {"forced", "died"}
        /\ x' \in {y \in [Part -> 0..(L-1)] : \A i \in Part : \E s \in Shifts : Abs(y[i] + s - x[i]) <= 1}
        /\ phase' = IF phase = "died" THEN "moveddied" ELSE "moved"
        /\ UNCHANGED <<R, dead, home, cells>>
Stock == /\ phase = "moved" \/ (phase = "moveddied" /\ ~Rebuild)
         /\ cells' = IF UseStock /\ phase = "moved" THEN Stocked(home) ELSE cells
         /\ phase' = "stocked" /\ UNCHANGED <<x, R, dead, home>>
Build == /\ phase \in {"moved", "moveddied"}
         /\ (UseStock \/ phase = "moveddied") /\ (Rebuild \/ phase = "moved")
         /\ home' \in [Part -> Leaves] /\ cells' = Stocked(home')
         /\ phase' = "stocked" /\ UNCHANGED <<x, R, dead>>
Next == Density \/ Extent \/ Forces \/ Die \/ Move \/ Stock \/ Build
Spec == Init /\ [][Next]_vars

Mine == {i \in Live : i \in cells[home[i]].ids}
GatherComplete == phase = "stocked" => \A i \in Live : i \in cells[home[i]].ids /\ \A r \in 1..RMax : Gather(i, r) \subseteq WalkGather(home[i], r)
ForcesComplete == phase = "extended" => \A i \in Live : Both(i) \subseteq WalkBoth(home[i])
GravityOnce == phase = "extended" => \A c \in Leaves : \A i \in Of(home, dead, c) :
   /\ \A d \in Whole(c) : cells[d].m = Cardinality(cells[d].ids \cap Live) /\ cells[d].ids \cap Both(i) = {}
   /\ Live = UNION {cells[d].ids : d \in Leaves} /\ cells[1].ids \cap cells[2].ids = {}
=============================================================================
