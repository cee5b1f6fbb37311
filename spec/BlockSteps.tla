----------------------------- MODULE BlockSteps -----------------------------
(* Hierarchical block time-steps of the gas particles and stars (C01, C02, C03).               *)
(* One behaviour step per stage of the main loop: Advance, Force, Limit, Assign, EndStep.      *)
(* Simulated time is counted in ticks; integer time n and the integer steps are those of the   *)
(* block structure, rescaled whenever a level is added or removed.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,   \* run configuration
          clk,   \* n, nres, lmax, ts, dtmax, t
          p,     \* particles: gas first, then stars
          pc     \* stage of the main loop

vars == <<cfg, clk, p, pc>>

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
IPow2(k) == IF k < 0 THEN 0 ELSE Pow2(k)          \* (int) pow(2,k)

NP == cfg.ng + cfg.ns
Gas == 1..cfg.ng
Stars == (cfg.ng + 1)..NP
All == 1..NP
SchemeOf(i) == IF i \in Gas THEN cfg.scheme ELSE cfg.sscheme
LStep(lmax) == lmax + cfg.istep - 1

(* floor(log2(a/b)) for a >= b >= 1 *)
RECURSIVE FloorLog(_, _)
FloorLog(a, b) == IF (a \div 2) >= b THEN 1 + FloorLog(a \div 2, b) ELSE 0
RatioIsPow2(a, b) == LET k == FloorLog(a, b) IN a = b * Pow2(k)

(* Levels the step criterion c may be put on when the longest step is dm: the longest power-of-two *)
(* subdivision that does not exceed c.  A criterion that is itself exactly such a subdivision may  *)
(* be put one level deeper (the code's logarithm rounds either way), and one longer than dm on     *)
(* level 0 or 1.                                                                                   *)
Levels(c, dm) ==
  IF c > dm THEN {0, 1}
  ELSE LET k == FloorLog(dm, c) IN IF RatioIsPow2(dm, c) THEN {k, k + 1} ELSE {k + 1}

(*------------------------------------------------------------------------------------------------*)
Due(i, q) == \* a force calculation is due for particle i at integer time clk.n
  LET dn == clk'.n - q.nlast IN
  IF SchemeOf(i) = "dkd" THEN dn = q.nstep \div 2 ELSE dn = q.nstep

Advance ==
  /\ pc = "adv"
  /\ clk' = [clk EXCEPT !.n = @ + 1, !.t = @ + clk.ts]
  /\ p' = [i \in All |-> [p[i] EXCEPT !.act = Due(i, p[i])]]
  /\ pc' = IF cfg.mfv THEN "limit" ELSE "force"
  /\ UNCHANGED cfg

(* Forces of every active gas particle are evaluated; each neighbour pair with an active member *)
(* learns of the other's level.  ln is the resulting neighbour level, nb / nbx the pairs that    *)
(* are certainly / possibly within reach.                                                        *)
NeibOK(ln, nb, nbx) ==
  \A i \in Gas :
     /\ ~p[i].act => ln[i] >= p[i].lneib
     /\ ln[i] <= SetMax({p[i].lneib} \cup {p[j].level : j \in {k \in Gas : <<Min2(i,k), Max2(i,k)>> \in nbx}} \cup {p[i].level})
     /\ \A j \in Gas : (<<Min2(i,j), Max2(i,j)>> \in nb /\ (p[i].act \/ p[j].act)) => ln[i] >= p[j].level

Force(ln, nb, nbx) ==
  /\ pc = "force" /\ ~cfg.mfv
  /\ NeibOK(ln, nb, nbx)
  /\ p' = [i \in All |-> IF i \in Gas THEN [p[i] EXCEPT !.lneib = ln[i], !.act = FALSE,
                                              !.evals = @ + (IF p[i].act THEN 1 ELSE 0)]
                          ELSE p[i]]
  /\ pc' = IF cfg.nlevels > 1 THEN "limit" ELSE "assign"
  /\ UNCHANGED <<cfg, clk>>

(* Meshless schemes do the same once per loop, after the step has ended, together with the gradients. *)
Neib(ln, nb, nbx) ==
  /\ pc = "neib" /\ cfg.mfv
  /\ NeibOK(ln, nb, nbx)
  /\ p' = [i \in All |-> IF i \in Gas THEN [p[i] EXCEPT !.lneib = ln[i]] ELSE p[i]]
  /\ pc' = "adv"
  /\ UNCHANGED <<cfg, clk>>

(* A particle whose neighbours are on much finer levels ends its step early, at the first time *)
(* that is aligned with the level it has to move to.                                           *)
NewLevel(i) == p[i].lneib - cfg.diff
Cut(i) ==
  LET dn == clk.n - p[i].nlast
      nnew == Pow2(LStep(clk.lmax) - NewLevel(i))
  IN /\ i \in Gas /\ cfg.limiter = "simple"
     /\ dn # p[i].nstep
     /\ p[i].lneib - p[i].level > cfg.diff
     /\ dn % nnew = 0
CutRec(i) ==
  LET dn == clk.n - p[i].nlast IN
  [p[i] EXCEPT !.nstep = IF dn > 0 THEN dn ELSE @, !.level = NewLevel(i), !.act = TRUE,
               !.cut = TRUE, !.dt = dn * clk.ts]

Limit ==
  /\ pc = "limit"
  /\ p' = [i \in All |-> IF Cut(i) THEN CutRec(i) ELSE p[i]]
  /\ pc' = IF ~cfg.mfv /\ (\E i \in Gas : Cut(i)) THEN "force" ELSE "assign"
  /\ UNCHANGED <<cfg, clk>>
CutCount == Cardinality({i \in Gas : Cut(i)})

(*------------------------------------------------------------------------------------------------*)
(* New step lengths.  c[i] is the step criterion of particle i.                                    *)
Ended(i) == clk.n - p[i].nlast = p[i].nstep

(* All particles are synchronised: rebuild the ladder from the shortest criterion. *)
SyncAssign(c, lev) ==
  LET dmin == SetMin({c[i] : i \in All})
      lmax == cfg.nlevels - 1
      lst  == LStep(lmax)
      dm   == dmin * Pow2(lmax)
      lh   == IF cfg.ng = 0 THEN 0 ELSE
              LET dh == SetMin({c[i] : i \in Gas}) IN SetMin({Min2(l, lmax) : l \in Levels(dh, dm)})
      lhx  == IF cfg.ng = 0 THEN 0 ELSE
              LET dh == SetMin({c[i] : i \in Gas}) IN SetMax({Min2(l, lmax) : l \in Levels(dh, dm)})
      nr   == Pow2(lst)
      ts   == dm \div nr
      allow(i) == IF i \in Gas
                  THEN IF cfg.single THEN {lh, lhx} ELSE {Min2(l, lmax) : l \in Levels(c[i], dm)}
                  ELSE {Max2(Min2(l, lmax), x) : l \in Levels(c[i], dm), x \in {lh, lhx}}
  IN /\ clk.n = clk.nres
     /\ dm = nr * ts
     /\ \A i \in All : lev[i] \in allow(i)
     /\ cfg.single => \A i, j \in Gas : lev[i] = lev[j]
     /\ \A i \in Stars, j \in Gas : lev[i] >= lev[j]
     /\ clk' = [clk EXCEPT !.n = 0, !.nres = nr, !.lmax = lmax, !.ts = ts, !.dtmax = dm]
     /\ p' = [i \in All |-> [p[i] EXCEPT !.level = lev[i], !.nstep = Pow2(lst - lev[i]), !.nlast = 0,
                                         !.dtn = Pow2(lst - lev[i]) * ts, !.ends = TRUE, !.crit = c[i],
                                         !.lneib = IF i \in Gas THEN lev[i] ELSE @]]

(* In between: particles at the end of their step move to a finer level at once, to a coarser one *)
(* one level at a time and only where that level is aligned.                                      *)
Wants(i, c, lh) == \* levels the criterion (and the neighbours, or the gas) ask for
  {Max2(l, IF i \in Gas THEN p[i].lneib - cfg.diff ELSE lh) : l \in Levels(c[i], clk.dtmax)}
NextLevel(i, w, lh) ==
  LET last == p[i].level IN
  IF i \in Gas /\ p[i].nstep # IPow2(LStep(clk.lmax) - p[i].level) THEN Max2(last, w)   \* step was cut short
  ELSE IF w < last /\ (i \in Gas \/ w > lh) /\ last > 1 /\ clk.n % (2 * p[i].nstep) = 0 THEN last - 1
  ELSE Max2(last, w)

MidAssign(c, lev, la) ==
  LET lgas == IF cfg.ng = 0 THEN 0 ELSE SetMax({lev[i] : i \in Gas})     \* finest gas level afterwards
      lnew == SetMax({lev[i] : i \in All})
      old  == clk.lmax
      nexts(i) == {NextLevel(i, w, lgas) : w \in Wants(i, c, lgas)}
      base(i) == lev[i] \in IF Ended(i) THEN nexts(i) ELSE {p[i].level}
      fac  == Pow2(lnew - old)
      drop == lnew <= old - 1 /\ old > 1 /\ clk.n % Pow2(LStep(old) - old + 1) = 0
      lmax == IF lnew > old THEN lnew ELSE IF drop THEN old - 1 ELSE old
      up(x)   == IF lnew > old THEN x * fac ELSE IF drop THEN x \div 2 ELSE x
      lst  == LStep(lmax)
      ts   == clk.dtmax \div Pow2(lst)
      n1   == up(clk.n)
  IN /\ clk.n # clk.nres
     /\ IF cfg.single
        THEN /\ \A i \in Stars : base(i)
             /\ \A i, j \in Gas : lev[i] = lev[j]
             /\ \A i \in Gas : (~Ended(i) => lev[i] = p[i].level)
             /\ LET ended == {i \in Gas : Ended(i)}
                IN ended # {} => /\ {j \in ended : lev[j] \in nexts(j)} # {}
                                 /\ \A i \in ended : lev[i] >= SetMin(nexts(i))
        ELSE \A i \in All : base(i)
     /\ \A i \in Stars, j \in Gas : lev[i] >= lev[j]
     /\ \A i \in Gas : (Ended(i) => la[i] \in (Wants(i, c, lgas) \cup {lev[i]}))   \* neighbour level is forgotten
     /\ clk.dtmax = ts * Pow2(lst)
     /\ clk' = [clk EXCEPT !.n = n1, !.nres = Pow2(lst), !.lmax = lmax, !.ts = ts]
     /\ p' = [i \in All |->
          IF Ended(i) THEN
            [p[i] EXCEPT !.level = lev[i], !.nstep = Pow2(lst - lev[i]), !.nlast = n1,
                         !.dtn = Pow2(lst - lev[i]) * ts, !.ends = TRUE, !.crit = c[i],
                         !.lneib = IF i \in Gas THEN la[i] ELSE @]
          ELSE [p[i] EXCEPT !.nstep = up(@), !.nlast = up(@)]]

(* One step for everything. *)
GlobalAssign(c) ==
  LET dmin == SetMin({c[i] : i \in All}) IN
  /\ IF clk.n = clk.nres
     THEN /\ clk' = [clk EXCEPT !.n = 0, !.nres = cfg.istep, !.lmax = 0, !.ts = dmin \div cfg.istep]
          /\ dmin % cfg.istep = 0
          /\ p' = [i \in All |-> [p[i] EXCEPT !.level = 0, !.lneib = 0, !.nstep = cfg.istep, !.ends = TRUE,
                                              !.dtn = dmin, !.crit = c[i]]]
     ELSE UNCHANGED <<clk, p>>

Assign(c, lev, la) ==
  /\ pc = "assign"
  /\ IF cfg.nlevels = 1 THEN GlobalAssign(c) ELSE SyncAssign(c, lev) \/ MidAssign(c, lev, la)
  /\ pc' = "end"
  /\ UNCHANGED cfg

(* The velocity of a particle at the end of its step is completed over the whole elapsed interval. *)
EndStep ==
  /\ pc = "end"
  /\ p' = [i \in All |-> IF p[i].ends
        THEN [p[i] EXCEPT !.kick = p[i].dt, !.elapsed = clk.t - p[i].tlast, !.nlast = clk.n, !.tlast = clk.t,
                          !.dt = p[i].dtn, !.dtn = 0, !.act = cfg.mfv, !.ends = FALSE, !.cut = FALSE,
                          !.nev = p[i].evals, !.evals = 0, !.wascut = p[i].cut]
        ELSE [p[i] EXCEPT !.kick = -1, !.act = IF cfg.mfv THEN FALSE ELSE @]]
  /\ pc' = IF cfg.mfv /\ clk.t > 0 THEN "neib" ELSE "adv"
  /\ UNCHANGED <<cfg, clk>>

Part0 == [level |-> 0, nstep |-> 0, nlast |-> 0, tlast |-> 0, dt |-> 0, dtn |-> 0, lneib |-> 0, ends |-> FALSE,
          act |-> FALSE, cut |-> FALSE, wascut |-> FALSE, crit |-> 0, kick |-> -1, elapsed |-> 0, evals |-> 0, nev |-> 0]
Start(c) == /\ cfg = c
            /\ clk = [n |-> 0, nres |-> 0, lmax |-> 0, ts |-> 0, dtmax |-> 0, t |-> 0]
            /\ p = [i \in 1..(c.ng + c.ns) |-> Part0]
            /\ pc = "assign"

(*------------------------------------------------------------------------------------------------*)
(* Properties.  All of them are about the stage between two main loops.                            *)
Steady == pc \in {"adv", "neib"}

(* C01 *)
Scheduled ==   \* recorded step length = scheduled integer length in units of the base step
  Steady => \A i \in All : p[i].dt = p[i].nstep * clk.ts
ClockAgrees == \* the particle's clock and the integer clock are the same clock
  Steady => \A i \in All : clk.t - p[i].tlast = (clk.n - p[i].nlast) * clk.ts
NoOvershoot == Steady => \A i \in All : clk.n - p[i].nlast < p[i].nstep /\ p[i].tlast <= clk.t
Aligned ==     \* steps start at multiples of their own length, counted from the last synchronisation
  Steady /\ cfg.nlevels > 1 => \A i \in All : p[i].nlast % p[i].nstep = 0
PowerOfTwo == Steady /\ cfg.nlevels > 1 => \A i \in All : p[i].nstep = Pow2(LStep(clk.lmax) - p[i].level) /\ p[i].level <= clk.lmax
SyncEnds ==    \* everything ends together at the synchronisation time
  Steady => \A i \in All : p[i].nlast + p[i].nstep <= clk.nres
Elapsed ==     \* every completed step is completed over exactly the time that passed
  Steady => \A i \in All : (p[i].kick # -1 /\ p[i].elapsed > 0) => p[i].kick = p[i].elapsed

(* C02 *)
WithinCriterion == Steady => \A i \in All : p[i].dt <= p[i].crit \/ clk.n - p[i].nlast > 0
SingleGas == Steady /\ cfg.single => \A i, j \in Gas : p[i].level = p[j].level
StarsShortest == Steady => \A i \in Stars, j \in Gas : p[i].level >= p[j].level
Doubling == [][ (pc = "end") => \A i \in All : (p'[i].kick # -1 /\ p[i].elapsed > 0 /\ clk.n # 0 /\ cfg.nlevels > 1 /\ ~p[i].cut)
                 => p'[i].dt <= 2 * (clk.t - p[i].tlast) ]_vars

(* C03 *)
ForceOnce == Steady => \A i \in Gas : (~cfg.mfv /\ p[i].kick # -1 /\ p[i].elapsed > 0) =>
                \/ p[i].nev = 1
                \/ p[i].nev = 2 /\ cfg.scheme = "dkd" /\ p[i].wascut
=============================================================================
