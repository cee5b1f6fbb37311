---------------------------- MODULE LedgerTrace ----------------------------
(* Recorded books of the meshless scheme against Ledger: every exchange has two sides, accounts are exactly what *)
(* the exchanges make them, a step's account is cleared into the particle when the step ends and at no other     *)
(* time, no pair is booked for the same time twice, nothing is created or lost.  And the sums over all forces of *)
(* the SPH schemes.  Quantities are integers: 2^-26 of the system's total.                                       *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
VARIABLES l, cf, st, cov, now, lost, ph
vars == <<l, cf, st, cov, now, lost, ph>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
NP == cf.np
P == 1..NP
V == 1..(cf.nd + 2)
VM == 1..cf.nd
VC == IF cf.grav THEN {cf.nd + 1} ELSE V          \* with gravity only the mass is exchanged and nothing else
VQ == IF cf.iso THEN VC \ {cf.nd + 2} ELSE VC   \* the thermal state is imposed
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, e) == Abs(x - y) <= e
Zero == [v \in V |-> 0]
RECURSIVE SumOver(_, _)
SumOver(F, n) == IF n = 0 THEN 0 ELSE F[n] + SumOver(F, n - 1)
Live(e) == {i \in P : e.dead[i] = 0}
(* --- one flux pass --------------------------------------------------------------------------------------- *)
Act(e) == {i \in P : e.act[i] = 1 /\ e.dead[i] = 0}
(* a booking: a particle against all its partners; it gives what they get, and amount = rate * step on both sides *)
TwoSided(b) == \A v \in V : LET gets == SumOver([k \in 1..Len(b.nb) |-> b.nb[k].g[v]], Len(b.nb)) IN
                  /\ Near(b.o[v] + gets, 0, 2 + Len(b.nb))
                  /\ Near(b.o[v], b.f[v], 2)
                  /\ \A k \in 1..Len(b.nb) : Near(b.nb[k].g[v], b.nb[k].f[v], 2)
(* how much particle i is to gain from the pass *)
Own(e, i, v) == SumOver([n \in 1..Len(e.x) |-> IF e.x[n].i = i THEN e.x[n].o[v] ELSE 0], Len(e.x))
Got(b, i, v) == SumOver([k \in 1..Len(b.nb) |-> IF b.nb[k].j = i /\ b.nb[k].m = 0 THEN b.nb[k].g[v] ELSE 0], Len(b.nb))
Gain(e, i, v) == Own(e, i, v) + SumOver([n \in 1..Len(e.x) |-> Got(e.x[n], i, v)], Len(e.x))
(* rates: per base step; a partner on a longer step keeps its own estimate *)
(* time covered *)
Norm(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>
Entries(e) == {<<n, k>> \in {<<n, k>> \in (1..Len(e.x)) \X (1..60) : k <= Len(e.x[n].nb)} : e.x[n].nb[k].m = 0}
Moves(e, n, k) == \E v \in V : Abs(e.x[n].nb[k].g[v]) > 3
PairOf(e, x) == Norm(e.x[x[1]].i, e.x[x[1]].nb[x[2]].j)
GoodFlux(e) ==
  /\ {e.x[n].i : n \in 1..Len(e.x)} \subseteq Act(e)
  /\ \A n \in 1..Len(e.x) : TwoSided(e.x[n])
  /\ \A n \in 1..Len(e.x) : \A k \in 1..Len(e.x[n].nb) : e.x[n].nb[k].j \in P /\ e.dead[e.x[n].nb[k].j] = 0
  /\ \A i \in Live(e) : \A v \in V : Near(e.dq[i][v], st.dq[i][v] + Gain(e, i, v), 40)
  /\ \A i \in Live(e) \ Act(e) : \A v \in V : Near(e.df[i][v], st.df[i][v], 1)
  /\ \A i \in P : e.act[i] = 1 /\ e.dead[i] = 0 => e.n = e.nl[i]
  \* no pair is booked twice, nor for a time already booked
  /\ cf.lim # "simple" =>
       LET E == {x \in Entries(e) : Moves(e, x[1], x[2])}
           Ps == {PairOf(e, x) : x \in E}
       IN /\ \A x, y \in E : PairOf(e, x) = PairOf(e, y) => x = y
          /\ \A p \in Ps : p \in DOMAIN cov => cov[p] <= e.t + 3
Covered(e) == LET E == {x \in Entries(e) : Moves(e, x[1], x[2])}
              IN [p \in {PairOf(e, x) : x \in E} |-> e.t + e.x[(CHOOSE x \in E : PairOf(e, x) = p)[1]].step] @@ cov
(* --- the step ------------------------------------------------------------------------------------------------ *)
Ended(e, i) == e.n = e.nl[i] + e.ns[i]
(* Drift: state between: at the end of its step a particle is its balance; before, its balance and its rate *)
GoodAdv(e) ==
  \A i \in Live(e) :
    /\ e.q0[i] = st.q0[i] /\ e.dq[i] = st.dq[i]
    /\ (e.act[i] = 1) = Ended(e, i)
    /\ \A v \in VQ : Near(e.q[i][v], IF Ended(e, i) THEN st.q0[i][v] + st.dq[i][v] ELSE st.q0[i][v] + st.df[i][v] * (e.n - e.nl[i]), 40 + (e.n - e.nl[i]))
Flip(e, i, v) == \E k \in 1..Len(e.flip) : e.flip[k] = <<i, v>>
Sgn(e, i, v) == IF Flip(e, i, v) THEN -1 ELSE 1
GoodBound(e) == \A i \in P : \A v \in V :
    /\ Near(e.q[i][v], Sgn(e, i, v) * st.q[i][v], 2)
    /\ Near(e.q0[i][v], Sgn(e, i, v) * st.q0[i][v], 2) /\ Near(e.dq[i][v], Sgn(e, i, v) * st.dq[i][v], 2)
GoodLimit(e) == \A i \in Live(e) : e.q0[i] = st.q0[i] /\
    (cf.lim # "simple" => e.dq[i] = st.dq[i] /\ e.ns[i] = st.ns[i])
GoodPre(e) == \A i \in Live(e) : e.q0[i] = st.q0[i] /\ e.dq[i] = st.dq[i]
GoodEnd(e) ==
  \A i \in Live(e) :
    IF e.nl[i] = e.n /\ e.act[i] = 1
    THEN /\ \A v \in VC : Near(e.q0[i][v], st.q0[i][v] + st.dq[i][v], 3)
         /\ e.dq[i] = Zero /\ e.df[i] = Zero
         /\ \A v \in VQ : Near(e.q[i][v], e.q0[i][v], 2)
         /\ cf.lim # "simple" => \A p \in DOMAIN cov : i \in {p[1], p[2]} => cov[p] <= e.t + 3
    ELSE e.q0[i] = st.q0[i] /\ e.dq[i] = st.dq[i] /\ e.act[i] = 0
Total(q, dq, v) == SumOver([i \in P |-> q[i][v] + dq[i][v]], NP)
(* nothing is created or lost *)
Balanced(e) == (cf.lim # "simple" /\ ~cf.mir) => \A v \in VC : Near(Total(e.q0, e.dq, v), Total(cf.q0, cf.dq, v), 4 * NP + 40)
Scaled == TRUE
TInit == /\ l = 1 /\ cf = Trace[1] /\ cov = << >> /\ now = 0 /\ lost = 0 /\ ph = "flux"
         /\ st = IF Trace[1].mfv THEN [q |-> Trace[1].q, q0 |-> Trace[1].q0, dq |-> Trace[1].dq, df |-> [i \in 1..Trace[1].np |-> [v \in 1..(Trace[1].nd + 2) |-> 0]], ns |-> Trace[1].ns] ELSE << >>
Step(e) ==
  CASE e.e = "flux" -> ph = "flux" /\ ph' = "adv" /\ GoodFlux(e) = TRUE /\ st' = [st EXCEPT !.dq = e.dq, !.df = e.df, !.ns = e.ns] /\ cov' = Covered(e) /\ Balanced([q0 |-> st.q0, dq |-> e.dq])
    [] e.e = "adv" -> ph = "adv" /\ ph' = "bound" /\ GoodAdv(e) = TRUE /\ st' = [st EXCEPT !.q = e.q] /\ UNCHANGED cov
    [] e.e = "bound" -> ph = "bound" /\ ph' = "limit" /\ GoodBound(e) = TRUE /\ st' = [st EXCEPT !.q = e.q, !.q0 = e.q0, !.dq = e.dq] /\ UNCHANGED cov
    [] e.e = "limit" -> ph = "limit" /\ ph' = "pre" /\ GoodLimit(e) = TRUE /\ st' = [st EXCEPT !.dq = e.dq, !.ns = e.ns] /\ UNCHANGED cov
    [] e.e = "pre" -> ph = "pre" /\ ph' = "end" /\ GoodPre(e) = TRUE /\ UNCHANGED <<st, cov>>
    [] e.e = "end" -> ph = "end" /\ ph' = "flux" /\ GoodEnd(e) = TRUE /\ Balanced(e) /\ st' = [st EXCEPT !.q = e.q, !.q0 = e.q0, !.dq = e.dq, !.df = e.df, !.ns = e.ns]
                        /\ cov' = [p \in {p \in DOMAIN cov : cov[p] > e.t + 3} |-> cov[p]]
    [] e.e = "force" -> UNCHANGED <<st, cov, ph>> /\ (e.all => \A k \in 1..cf.nd : Abs(e.mom[k]) <= 100) /\ (e.all /\ ~cf.grav => Abs(e.en) <= 100)
    [] e.e = "done" -> UNCHANGED <<st, cov, ph>>
    [] e.e = "raise" -> UNCHANGED <<st, cov, ph>> /\ e.self
    [] OTHER -> FALSE
TNext == l < Len(Trace) /\ l' = l + 1 /\ UNCHANGED <<cf, now, lost>> /\ Step(Trace[l'])
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
