---------------------------- MODULE MCBlockSteps ----------------------------
(* Exhaustive exploration of BlockSteps: every choice of the step criteria from a small set,   *)
(* every admissible level, for a few particles.                                                *)
EXTENDS BlockSteps
CONSTANTS NG, NS, NLEV, DIFF, ISTEP, SINGLE, SCHEME, SSCHEME, LIMITER, MFV, CRITS, LMAX
Cfg == [ng |-> NG, ns |-> NS, nlevels |-> NLEV, diff |-> DIFF, istep |-> ISTEP, single |-> SINGLE, scheme |-> SCHEME,
        sscheme |-> SSCHEME, limiter |-> LIMITER, mfv |-> MFV]
Criteria == CRITS
Pairs == {<<i, j>> \in Gas \X Gas : i < j /\ j = i + 1}
MCInit == Start(Cfg)
LevelFns == [All -> 0..LMAX]
\* neighbour levels: the true maximum over what was seen this time and before
Seen(i) == {p[j].level : j \in {k \in Gas : <<Min2(i,k), Max2(i,k)>> \in Pairs /\ (p[i].act \/ p[k].act)}}
NeibLevels == [i \in All |-> IF i \in Gas THEN SetMax({p[i].lneib, p[i].level} \cup Seen(i)) ELSE 0]
MCAdv == Advance
MCForce == Force(NeibLevels, Pairs, Pairs)
MCNeib == Neib(NeibLevels, Pairs, Pairs)
MCLimit == Limit
\* A particle whose step has not ended keeps criterion 0: it is not asked.
RECURSIVE Prod(_, _)
Prod(i, O) == IF i = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Prod(i - 1, O), x \in O[i]}
Sync == clk.n = clk.nres
CritOptions == [i \in All |-> IF Sync \/ Ended(i) THEN CRITS ELSE {SetMax(CRITS)}]
LevOptions(c) ==   \* a superset of the levels Assign admits, particle by particle
  [i \in All |->
     IF NLEV = 1 THEN {0}
     ELSE IF Sync THEN IF i \in Gas /\ ~SINGLE
                  THEN {Min2(l, NLEV - 1) : l \in Levels(c[i], SetMin({c[j] : j \in All}) * Pow2(NLEV - 1))} ELSE 0..(NLEV - 1)
     ELSE IF ~Ended(i) THEN {p[i].level}
     ELSE IF i \in Gas /\ ~SINGLE THEN {NextLevel(i, w, 0) : w \in Wants(i, c, 0)} ELSE 0..LMAX]
MCAssign ==
  /\ pc = "assign"
  /\ \E c \in Prod(NP, CritOptions) : \E lev \in Prod(NP, LevOptions(c)) : Assign(c, lev, lev)
MCEnd == EndStep
MCNext == MCAdv \/ MCForce \/ MCNeib \/ MCLimit \/ MCAssign \/ MCEnd
MCSpec == MCInit /\ [][MCNext]_vars
\* absolute time does not matter
View == <<clk.n, clk.nres, clk.lmax, clk.ts, pc, [i \in All |-> [p[i] EXCEPT !.tlast = clk.t - @]]>>
\* Something is always possible: no reachable assignment is stuck (the rules for levels never contradict each other).
AssignPossible == pc = "assign" => ENABLED MCAssign
Fits == clk.lmax <= LMAX
=============================================================================
