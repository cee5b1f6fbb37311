----------------------------- MODULE SinksTrace -----------------------------
(* Recorded searches for sinks and accretions against Sinks.  Masses, moments and momenta are integers: 2^-26 of   *)
(* the total (times the largest position, velocity, acceleration present).                                        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES l, cf, m, d, s, stru, ph
vars == <<l, cf, m, d, s, stru, ph>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
NP == cf.np
P == 1..NP
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, e) == Abs(x - y) <= e
RECURSIVE SumOver(_, _)
SumOver(F, n) == IF n = 0 THEN 0 ELSE F[n] + SumOver(F, n - 1)
Range(f) == {f[i] : i \in DOMAIN f}
Pos(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
(* --- the search ------------------------------------------------------------------------------------------- *)
(* what excludes candidate c when the first k of the new sinks exist: 0 nothing, 1 something, 2 too close to call *)
Verdicts(e, c, k) == Range(e.exs[c]) \cup {e.exc[c][Pos(e.cand, e.born[j])] : j \in 1..k}
Sure(e, c, k) == 1 \in Verdicts(e, c, k)
Possible(e, c, k) == Verdicts(e, c, k) \cap {1, 2} # {}
GoodSearch(e) ==
  LET nb == Len(e.born)  born == Range(e.born)  C == DOMAIN e.cand IN
  /\ Cardinality(born) = nb /\ born \subseteq Range(e.cand)
  /\ \A j \in 1..nb : LET c == Pos(e.cand, e.born[j]) IN
       /\ ~Sure(e, c, j - 1)
       /\ \A y \in 1..(c - 1) : e.cand[y] \in born \/ Possible(e, y, j - 1)
       /\ \A y \in 1..(c - 1) : e.cand[y] \in born /\ Pos(e.born, e.cand[y]) > j => Possible(e, y, j - 1)
       /\ e.copied[j] = 1
       /\ e.s1[Len(e.s0) + j] = m[e.born[j]]
  /\ (e.cap # -1 /\ nb > 0) => e.had + nb <= e.cap
  /\ e.full => nb = e.room
  /\ e.full \/ (e.cap # -1 /\ e.had + nb >= e.cap) \/ \A c \in C : e.cand[c] \in born \/ Possible(e, c, nb)
  /\ Len(e.s1) = Len(e.s0) + nb
  /\ \A i \in DOMAIN e.s0 : e.s1[i] = e.s0[i]
  /\ \A i \in P : IF i \in born THEN d[i] = 0 /\ e.d1[i] = 1 /\ e.m1[i] = 0 ELSE e.d1[i] = e.d0[i] /\ e.m1[i] = e.m0[i]
(* --- accretion -------------------------------------------------------------------------------------------- *)
Taken(e, i) == e.m0[i] - e.m1[i]
Eaten(e) == {i \in P : Taken(e, i) # 0 \/ e.d1[i] # e.d0[i]}
SumQ(F, v, k) == SumOver([x \in DOMAIN F |-> F[x].q[v][k]], Len(F))
GoodSink(e, sk, si) ==
  LET mine == SelectSeq(sk.in, LAMBDA x : e.own[x.i] = si)
      nm == Len(mine)
      T(x) == Taken(e, mine[x].i)
      total == SumOver([x \in 1..nm |-> T(x)], nm)
      took == {x \in 1..nm : e.d1[mine[x].i] = 1 \/ T(x) # 0}
      slack == nm + 4
  IN IF ~sk.due THEN sk.m1 = sk.m0 /\ sk.q1 = sk.q0 /\ took = {}
     ELSE /\ Near(sk.m1, sk.m0 + total, slack)
          /\ \A v \in 1..4 : \A k \in DOMAIN sk.q0[v] : Near(sk.q1[v][k], sk.q0[v][k] + SumQ(mine, v, k), slack)
          /\ \A x \in 1..nm : e.d1[mine[x].i] = 1 \/ e.m1[mine[x].i] > 0
          /\ IF ~cf.smooth THEN \A x \in 1..nm : mine[x].c = 1 => x \in took /\ e.d1[mine[x].i] = 1
             ELSE /\ sk.fin
                  /\ \A x \in took : \A y \in 1..(x - 1) : mine[y].c = 1 => y \in took
                  /\ Cardinality({x \in took : e.d1[mine[x].i] = 0}) <= 1 \* the last of them may be taken in part
                  /\ \A x \in took : e.d1[mine[x].i] = 0 => \A y \in took : y <= x
                  /\ nm > 0 => \/ total >= sk.target - slack
                               \/ took = 1..nm
                  /\ total > sk.target + slack => \E x \in took : e.d1[mine[x].i] = 1 /\ total - T(x) <= sk.target + slack
GoodAccrete(e) ==
  /\ ~e.threw
  /\ Len(e.s1) = Len(e.s0)
  /\ \A k \in DOMAIN e.sk : GoodSink(e, e.sk[k], k)
  /\ \A j \in DOMAIN e.s0 : j \notin Range(stru.sink) => e.s1[j] = e.s0[j]
  (* what loses mass belongs to a sink that is due and is inside it *)
  /\ \A i \in Eaten(e) : e.d0[i] = 0 /\ e.own[i] > 0 /\ e.sk[e.own[i]].due /\ \E x \in DOMAIN e.sk[e.own[i]].in : e.sk[e.own[i]].in[x].i = i
  /\ \A i \in P : e.d1[i] = 1 => e.m1[i] = 0
  (* everything alive inside a sink has an owner, and is inside its owner *)
  /\ \A k \in DOMAIN e.sk : \A x \in DOMAIN e.sk[k].in : e.sk[k].in[x].c = 1 => e.own[e.sk[k].in[x].i] > 0
  /\ \A i \in P : e.own[i] > 0 /\ e.d0[i] = 0 => \E x \in DOMAIN e.sk[e.own[i]].in : e.sk[e.own[i]].in[x].i = i
(* --- minima of the potential: no neighbour within the kernel is deeper (2: too close to its edge to call) --- *)
GoodMinima(e) == e.sane /\ \A i \in DOMAIN e.flag : e.low[i] = 2 \/ e.low[i] = e.flag[i]
(* --- sinks and stars -------------------------------------------------------------------------------------- *)
GoodStruct(e) == /\ Len(e.sink) = e.nstar /\ e.nnb = e.nstar /\ Range(e.sink) = 1..e.nstar
                 /\ Len(e.body) = e.nnb /\ Range(e.body) = 1..e.nstar /\ e.kernel
Same(e) == /\ \A i \in P : Near(e.m0[i], m[i], 1) /\ e.d0[i] = d[i]
           /\ Len(e.s0) = Len(s) /\ \A i \in DOMAIN s : Near(e.s0[i], s[i], 1)
Kept(e) == Near(SumOver(e.m1, NP) + SumOver(e.s1, Len(e.s1)), SumOver(cf.m, NP) + SumOver(cf.s, Len(cf.s)), 2 * NP + 40)
TInit == l = 1 /\ (Trace[1].e = "init" => Trace[1].threshold) /\ cf = Trace[1] /\ m = Trace[1].m /\ d = Trace[1].d /\ s = Trace[1].s /\ stru = << >> /\ ph = "struct"
Upd(e) == m' = e.m1 /\ d' = e.d1 /\ s' = e.s1 /\ ph' = "struct" /\ UNCHANGED stru
Step(e) ==
  CASE e.e = "search" -> ph = "any" /\ Same(e) = TRUE /\ GoodSearch(e) = TRUE /\ Kept(e) = TRUE /\ Upd(e)
    [] e.e = "accrete" -> ph = "any" /\ Same(e) = TRUE /\ GoodAccrete(e) = TRUE /\ Kept(e) = TRUE /\ Upd(e)
    [] e.e = "struct" -> ph = "struct" /\ GoodStruct(e) = TRUE /\ stru' = e /\ ph' = "any" /\ UNCHANGED <<m, d, s>>
    [] e.e = "minima" -> ph = "any" /\ GoodMinima(e) = TRUE /\ UNCHANGED <<m, d, s, stru, ph>>
    [] e.e = "done" -> ph = "any" /\ e.nsink = Len(s) /\ UNCHANGED <<m, d, s, stru, ph>>
    [] e.e = "raise" -> (e.self \/ e.memory) /\ UNCHANGED <<m, d, s, stru, ph>>
    [] OTHER -> FALSE
Begin(e) == e.e = "init" /\ e.threshold /\ cf' = e /\ m' = e.m /\ d' = e.d /\ s' = e.s /\ stru' = << >> /\ ph' = "struct"
TNext == l < Len(Trace) /\ l' = l + 1 /\ (Begin(Trace[l']) \/ (UNCHANGED cf /\ Step(Trace[l'])))
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
