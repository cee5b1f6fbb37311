----------------------------- MODULE Interactions -----------------------------
(* Who interacts with whom.  One pass of the code over its active particles evaluates, for each of them, a    *)
(* list of neighbours (densities, gradients, forces, fluxes) and for gravity a list of smoothed neighbours,    *)
(* single particles and cells.  The operators below define what these lists must be, from positions, kernel    *)
(* radii, types and boundaries alone; the tree is only an index whose summaries must be those of its contents. *)
(* Lengths are integers (SC per unit length); a quantity is known to +-1, hence the slack Eps.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Eps == 2
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

(* ---- geometry: cf.nd, cf.lo, cf.hi, cf.bc = letters (o open, p periodic, m mirror), two per dimension ---- *)
Len1(cf, k) == cf.hi[k] - cf.lo[k]
Periodic(cf, k) == cf.bc[2*k-1] = "p"
MirL(cf, k) == cf.bc[2*k-1] = "m"
MirR(cf, k) == cf.bc[2*k] = "m"
(* coordinates at which a particle at x is seen in dimension k *)
Coords(cf, k, x) == {x} \cup (IF Periodic(cf, k) THEN {x - Len1(cf, k), x + Len1(cf, k)} ELSE {})
                        \cup (IF MirL(cf, k) THEN {2 * cf.lo[k] - x} ELSE {}) \cup (IF MirR(cf, k) THEN {2 * cf.hi[k] - x} ELSE {})
(* coordinates that must be seen from y: the nearest periodic one, all mirrored ones *)
SeenFrom(cf, k, x, y) == IF Periodic(cf, k) THEN {c \in Coords(cf, k, x) : Abs(c - y) <= Len1(cf, k) \div 2 - Eps} ELSE Coords(cf, k, x)
Sq(v) == v * v
Cap(r) == IF r > 20000 THEN 20000 ELSE r
RECURSIVE D2From(_, _, _)
D2From(x, y, k) == IF k = 0 THEN 0 ELSE Sq(Cap(Abs(x[k] - y[k]))) + D2From(x, y, k - 1)
D2(x, y) == D2From(x, y, Len(x))
(* images (as position tuples) of a particle at x which lie strictly within r of y *)
RECURSIVE ImgFrom(_, _, _, _, _)
ImgFrom(cf, x, y, r, k) ==
  IF k > cf.nd THEN {<< >>} ELSE
  LET C == {c \in SeenFrom(cf, k, x[k], y[k]) : Abs(c - y[k]) <= r} IN
  IF C = {} THEN {} ELSE LET T == ImgFrom(cf, x, y, r, k + 1) IN {<<c>> \o t : c \in C, t \in T}
Images(cf, x, y, r) == IF r < 1 THEN {} ELSE {z \in ImgFrom(cf, x, y, r, 1) : D2(z, y) < Sq(Cap(r))}
Near(z, w, tol) == \A k \in 1..Len(z) : Abs(z[k] - w[k]) <= tol
Pos(e) == Tail(e)                                    \* list entry <<id, x1 .. xn>>
(* is w the place of some image of a particle at x? *)
IsImage(cf, x, w) == \A k \in 1..cf.nd : \E c \in Coords(cf, k, x[k]) : Abs(c - w[k]) <= Eps
IsReal(cf, x, w) == \A k \in 1..cf.nd : \E c \in {x[k]} \cup (IF Periodic(cf, k) THEN {x[k] - Len1(cf, k), x[k] + Len1(cf, k)} ELSE {}) : Abs(c - w[k]) <= Eps
NumImagesNear(cf, x, w, tol) == LET Dup == \E k \in 1..cf.nd : (MirL(cf, k) /\ Abs(x[k] - cf.lo[k]) <= tol) \/ (MirR(cf, k) /\ Abs(x[k] - cf.hi[k]) <= tol)
                                IN IF Dup THEN 8 ELSE 1         \* on a mirror the images coincide

(* ---- particle types: 0 gas, 2 collisionless, 3 dust ---- *)
SeesDens(a, b) == IF a = 3 THEN b = 3 ELSE b \in {0, 2}
Gas(a, b) == a = 0 /\ b = 0
Gravs(t) == t \in {0, 2}
Live(P) == {i \in 1..Len(P) : ~P[i].d}
(* active live particles that a pass of the given kind must process *)
Todo(P, kind, cf) == {i \in Live(P) : P[i].a /\
   (CASE kind = "dens" -> P[i].u [] kind \in {"hydro", "hgrav", "grad", "flux"} -> P[i].t = 0 [] OTHER -> Gravs(P[i].t))}
Ids(q) == {q[n].i : n \in 1..Len(q)}
ProcessedOnce(P, q, T) == Ids(q) = T /\ Len(q) = Cardinality(T)

(* every entry is a genuine image of a live particle of the right kind, none twice *)
Genuine(cf, P, i, nb, S(_, _)) ==
  \A n \in 1..Len(nb) : LET e == nb[n] IN
     /\ e[1] \in 1..Len(P) /\ ~P[e[1]].d /\ S(P[i].t, P[e[1]].t)
     /\ IsImage(cf, P[e[1]].x, Pos(e))
     /\ LET c == Cardinality({m \in 1..Len(nb) : nb[m][1] = e[1] /\ Near(Pos(nb[m]), Pos(e), Eps)}) IN
        c = 1 \/ c <= NumImagesNear(cf, P[e[1]].x, Pos(e), 4)
Conv(R) == R - R \div 64 - 1                       \* the density sum was converged to 1% in h
(* everything within range is there: gather range R for densities, the larger of both radii otherwise *)
(* Boundary copies for densities are made as far as 1.6 times the copied particle's own radius: a copy whose    *)
(* radius is much smaller than that of the particle looking at it need not exist (unless cf.strict).            *)
Copied(cf, P, i, R, j, z) == cf.strict \/ z = P[j].x \/ P[j].R >= R - R \div 4
Complete(cf, P, i, R, nb, S(_, _), sym) ==
  \A j \in Live(P) : S(P[i].t, P[j].t) =>
     \A z \in Images(cf, P[j].x, P[i].x, (IF sym THEN Max2(R, P[j].R) ELSE Conv(R)) - Eps) :
        (j = i /\ Near(z, P[i].x, 0)) \/ (~sym /\ ~Copied(cf, P, i, R, j, z)) \/ \E n \in 1..Len(nb) : nb[n][1] = j /\ Near(Pos(nb[n]), z, Eps)
GoodList(cf, P, q, S(_, _), sym) == Genuine(cf, P, q.i, q.nb, S) /\ Complete(cf, P, q.i, q.R, q.nb, S, sym)
RECURSIVE AllFrom(_, _, _)
AllFrom(cf, x, k) == IF k > cf.nd THEN {<< >>} ELSE LET T == AllFrom(cf, x, k + 1) IN {<<c>> \o t : c \in Coords(cf, k, x[k]), t \in T}
(* densities of the meshless scheme: entries are <<id, distance>> *)
GoodDist(cf, P, q) ==
  /\ \A n \in 1..Len(q.nb) : LET e == q.nb[n] IN
       /\ e[1] \in 1..Len(P) /\ ~P[e[1]].d
       /\ \E z \in AllFrom(cf, P[e[1]].x, 1) : D2(z, P[q.i].x) >= Sq(Cap(Max2(0, e[2] - 3))) /\ D2(z, P[q.i].x) <= Sq(Cap(e[2] + 3))
  /\ \A j \in Live(P) : LET I == {z \in Images(cf, P[j].x, P[q.i].x, Conv(q.R) - Eps) : Copied(cf, P, q.i, q.R, j, z)} IN
       I # {} => Cardinality({n \in 1..Len(q.nb) : q.nb[n][1] = j}) >= Cardinality(I)
       
(* ---- fluxes: every pair of real particles in range with an active member is computed exactly once, ---- *)
(* ---- from either side; reflected partners every time (their exchange is not returned to anybody)    ---- *)
RealHits(cf, P, q, i, j) == IF i \notin Ids(q) THEN 0 ELSE
   LET r == q[CHOOSE n \in 1..Len(q) : q[n].i = i] IN Cardinality({n \in 1..Len(r.nb) : r.nb[n][1] = j /\ IsReal(cf, P[j].x, Pos(r.nb[n]))})
NearMirror(cf, x) == \E k \in 1..cf.nd : (MirL(cf, k) /\ Abs(x[k] - cf.lo[k]) <= 4) \/ (MirR(cf, k) /\ Abs(x[k] - cf.hi[k]) <= 4)
RealImages(cf, P, i, j, r) == {z \in Images(cf, P[j].x, P[i].x, r) : IsReal(cf, P[j].x, z)}
GoodFlux(cf, P, q) ==
  /\ \A n \in 1..Len(q) : Genuine(cf, P, q[n].i, q[n].nb, Gas)
  /\ \A i, j \in Live(P) : i < j /\ P[i].t = 0 /\ P[j].t = 0 /\ ~NearMirror(cf, P[i].x) /\ ~NearMirror(cf, P[j].x) /\ (P[i].a \/ P[j].a) =>
       LET h == RealHits(cf, P, q, i, j) + RealHits(cf, P, q, j, i) IN
       h <= 1 /\ (RealImages(cf, P, i, j, Max2(P[i].R, P[j].R) - Eps) # {} => h = 1)
  /\ \A n \in 1..Len(q) : LET i == q[n].i IN \A j \in Live(P) : P[j].t = 0 =>
       \A z \in Images(cf, P[j].x, P[i].x, Max2(P[i].R, P[j].R) - Eps) : IsReal(cf, P[j].x, z) \/ \E m \in 1..Len(q[n].nb) : q[n].nb[m][1] = j /\ Near(Pos(q[n].nb[m]), z, Eps)

(* ---- the tree: walking it visits every cell once, its leaves partition the live particles, and every ---- *)
(* ---- summary a walk relies on covers what lies below                                               ---- *)
RECURSIVE Kids(_, _, _, _)
Kids(C, c, d, fuel) == IF d = C[c].n \/ d < 1 \/ d > Len(C) \/ fuel = 0 THEN << >> ELSE <<d>> \o Kids(C, c, C[d].n, fuel - 1)
Children(C, c) == IF C[c].o = 0 THEN << >> ELSE Kids(C, c, C[c].o, Len(C))
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Below(_, _, _)
Below(C, c, fuel) == IF C[c].o = 0 \/ fuel = 0 THEN C[c].ids
                     ELSE LET ch == Children(C, c) IN Flat([k \in 1..Len(ch) |-> Below(C, ch[k], fuel - 1)])
Contents(C) == TLCEval([c \in 1..Len(C) |-> Below(C, c, 40)])
Elems(s) == {s[n] : n \in 1..Len(s)}
RECURSIVE WalkFrom(_, _, _)
WalkFrom(C, c, fuel) == IF c < 1 \/ c > Len(C) \/ fuel = 0 THEN << >> ELSE <<c>> \o WalkFrom(C, IF C[c].o # 0 THEN C[c].o ELSE C[c].n, fuel - 1)
Reached(C) == WalkFrom(C, 1, Len(C) + 1)
GoodCell(cf, P, c, ids) ==
  LET L == {i \in Elems(ids) : ~P[i].d} M == {i \in L : Gravs(P[i].t)} IN
  /\ Len(ids) = Cardinality(Elems(ids))
  /\ c.N = Cardinality(L)
  /\ (cf.leaf > 0 /\ c.o = 0 => c.N <= cf.leaf)
  /\ (c.o = 0 => c.na = Cardinality({i \in L : P[i].a}))
  /\ Abs(c.m - SumOver([i \in M |-> P[i].m], M)) <= 1 + Cardinality(M)
  /\ \A i \in L : \A k \in 1..cf.nd : c.bb[k][1] <= P[i].x[k] + Eps /\ c.bb[k][2] >= P[i].x[k] - Eps
  /\ (L # {} => \A k \in 1..cf.nd : (\E i \in L : Abs(P[i].x[k] - c.bb[k][1]) <= Eps) /\ (\E i \in L : Abs(P[i].x[k] - c.bb[k][2]) <= Eps))
GoodExtent(cf, P, c, ids) ==
  LET L == {i \in Elems(ids) : ~P[i].d} IN
  \A i \in L : /\ c.hm >= P[i].R - Eps
               /\ \A k \in 1..cf.nd : c.hb[k][1] <= P[i].x[k] - P[i].R + 4 /\ c.hb[k][2] >= P[i].x[k] + P[i].R - 4
GoodTree(cf, P, C, forces) ==
  LET ct == Contents(C) w == Reached(C) IN
  /\ Len(w) = Len(C) /\ Elems(w) = 1..Len(C)
  /\ {i \in Elems(ct[1]) : ~P[i].d} = Live(P)
  /\ \A c \in 1..Len(C) : GoodCell(cf, P, C[c], ct[c])
  /\ (forces => \A c \in 1..Len(C) : GoodExtent(cf, P, C[c], ct[c]))

(* ---- gravity: every live source exactly once; in kernel range as a neighbour, far away possibly in a cell ---- *)
Count(s, j) == Cardinality({n \in 1..Len(s) : s[n] = j})
IdsOf(nb) == [n \in 1..Len(nb) |-> nb[n][1]]
GoodSum(P, cl) ==                     \* a cell stands for the mass and centre of mass of the live sources in it
  LET M == {j \in Elems(cl.ids) : ~P[j].d /\ Gravs(P[j].t)} IN
  /\ Abs(cl.m - SumOver([j \in M |-> P[j].m], M)) <= 1 + Cardinality(M)
  /\ \A k \in 1..Len(cl.x) : Abs(SumOver([j \in M |-> (P[j].m \div 10) * P[j].x[k]], M) - (cl.m \div 10) * cl.x[k]) <= 3 * (cl.m \div 10) + 5000 * Cardinality(M)
Half(b) == (b[2] - b[1]) \div 2
Mid(b) == (b[2] + b[1]) \div 2
Diag2(c) == SumSeq([k \in 1..Len(c.bb) |-> Sq(Cap(Half(c.bb[k])) \div 16)])
CellDist2(a, b) == SumSeq([k \in 1..Len(a.bb) |-> Sq(Cap(Abs(Mid(a.bb[k]) - Mid(b.bb[k]))) \div 16 + 2)])
(* geometric opening criterion between the cell of the target and a cell used as a whole *)
FarEnough(cf, a, b) == (CellDist2(a, b) \div 1000 + 1) * cf.theta >= Diag2(b)
Once(P, i, ids) == \A j \in Live(P) : j # i /\ Gravs(P[j].t) => Count(ids, j) = 1
GoodGrav(cf, P, C, ct, g, H) ==      \* H: the neighbours of the combined hydro + gravity evaluation of i
  LET i == g.i
      near == IdsOf(H) \o IdsOf(g.sm) far == IdsOf(g.dir) \o Flat([n \in 1..Len(g.cells) |-> g.cells[n].ids])
      home == CHOOSE c \in 1..Len(C) : C[c].o = 0 /\ i \in Elems(ct[c])
  IN /\ Once(P, i, near \o far)
     /\ Count(far, i) = 0
     /\ \A n \in 1..Len(near) : near[n] \in 1..Len(P) /\ ~P[near[n]].d
     /\ \A n \in 1..Len(g.dir) : g.dir[n][1] \in 1..Len(P) /\ ~P[g.dir[n][1]].d /\ Gravs(P[g.dir[n][1]].t) /\ Near(Pos(g.dir[n]), P[g.dir[n][1]].x, Eps)
     /\ \A n \in 1..Len(g.sm) : Near(Pos(g.sm[n]), P[g.sm[n][1]].x, Eps)
     /\ \A n \in 1..Len(far) : far[n] \in Live(P) => D2(P[i].x, P[far[n]].x) >= Sq(Cap(Max2(0, Max2(P[i].R, P[far[n]].R) - Eps)))
     /\ \A n \in 1..Len(g.cells) : /\ GoodSum(P, g.cells[n])
                                   /\ (cf.mac => FarEnough(cf, C[home], C[g.cells[n].c]))
(* gravity of the gas on a star: the pair is softened with the mean of both kernel radii *)
GoodStar(cf, e) ==
  LET P == e.p far == e.dl \o Flat([n \in 1..Len(e.cells) |-> e.cells[n].ids]) IN
  /\ \A j \in Live(P) : Gravs(P[j].t) => Count(e.nl \o far, j) = 1
  /\ \A n \in 1..Len(e.nl) : ~P[e.nl[n]].d
  /\ \A n \in 1..Len(e.dl) : ~P[e.dl[n]].d
  /\ \A n \in 1..Len(far) : far[n] \in Live(P) => D2(e.x, P[far[n]].x) >= Sq(Cap(Max2(0, (Cap(e.H) + Cap(P[far[n]].R)) \div 2 - Eps)))
  /\ \A n \in 1..Len(e.cells) : GoodSum(P, e.cells[n])
===============================================================================
