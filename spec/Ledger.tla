------------------------------- MODULE Ledger -------------------------------
(* The account book of the meshless (finite-volume) scheme with individual time-steps.                          *)
(* Each particle owns Q (its conserved quantity at the start of its step) and an open account dQ of what it     *)
(* has exchanged since.  A pair exchanges a flux f for the length of the payer's step; the payer books -f*dt on *)
(* its own account and +f*dt on its partner's, whose step may still be running.  A particle clears its account  *)
(* when its step ends.  What matters: nothing is created or lost, and at the end of a particle's step every one *)
(* of its pairs has been accounted for up to now: not longer, not shorter, not twice.                           *)
EXTENDS Integers, FiniteSets
CONSTANTS N, LMax, Turns, Rule, Cut, Mirror
P == 1..N
Pairs == {<<i, j>> \in P \X P : i < j}
Len(l) == 2^(LMax - l)
Base == Len(0)
VARIABLES n, turn, phase, lev, last, step, Q, dQ, rate, cov, flow, wall
vars == <<n, turn, phase, lev, last, step, Q, dQ, rate, cov, flow, wall>>
TypeOK == /\ n \in 0..Base /\ turn \in 0..Turns /\ phase \in {"flux", "end"}
          /\ lev \in [P -> 0..LMax] /\ \A i \in P : last[i] \in 0..Base /\ step[i] \in 1..Base
Init == /\ n = 0 /\ turn = 0 /\ phase = "flux" /\ lev \in [P -> 0..LMax] /\ last = [i \in P |-> 0]
        /\ step = [i \in P |-> Len(lev[i])] /\ Q = [i \in P |-> 0] /\ dQ = [i \in P |-> 0] /\ rate = [i \in P |-> 0]
        /\ cov = [p \in Pairs |-> 0] /\ flow = 0 /\ wall = 0
Active(i) == last[i] = n
(* who books the flux of a pair *)
Pays(i, j) == CASE Rule = "finer" -> lev[i] > lev[j] \/ (lev[i] = lev[j] /\ i < j)
                [] Rule = "coarser" -> lev[i] < lev[j] \/ (lev[i] = lev[j] /\ i < j)
                [] Rule = "active" -> TRUE                           \* every active particle books all its pairs
                [] Rule = "id" -> i < j
Sum(S, F(_)) == LET RECURSIVE G(_) G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN F(x) + G(T \ {x}) IN G(S)
Books == {<<i, j>> \in P \X P : i # j /\ Active(i) /\ Pays(i, j)}
Norm(b) == IF b[1] < b[2] THEN b ELSE <<b[2], b[1]>>
Flux == /\ phase = "flux"
        /\ \E f \in [Pairs -> 0..1], w \in IF Mirror THEN 0..1 ELSE {0} :
             LET own(i) == Sum({b \in Books : b[1] = i}, LAMBDA b : f[Norm(b)] * step[i])
                 got(i) == Sum({b \in Books : b[2] = i}, LAMBDA b : f[Norm(b)] * step[b[1]])
                 r(i) == Sum({b \in Books : b[2] = i}, LAMBDA b : f[Norm(b)]) - Sum({b \in Books : b[1] = i}, LAMBDA b : f[Norm(b)])
                 wl(i) == IF i = 1 /\ Active(i) THEN w * step[i] ELSE 0      \* particle 1 exchanges with its own mirror image
             IN /\ dQ' = [i \in P |-> dQ[i] - own(i) + got(i) - wl(i)]
                /\ rate' = [i \in P |-> IF Active(i) THEN r(i) ELSE rate[i]]
                /\ wall' = wall + wl(1)
        /\ cov' = [p \in Pairs |-> cov[p] + Sum({b \in Books : Norm(b) = p}, LAMBDA b : step[b[1]])]
        /\ phase' = "end" /\ UNCHANGED <<n, turn, lev, last, step, Q, flow>>
(* the limiter of the simple kind: a step is cut short and the account replaced by the estimate rate*dt *)
CutSome == IF ~Cut THEN {{}} ELSE {{}} \cup {{i} : i \in {x \in P : n + 1 < last[x] + step[x]}}
End == /\ phase = "end" /\ phase' = "flux"
       /\ \E c \in CutSome, l \in [P -> 0..LMax] :
            LET m == n + 1
                st == [i \in P |-> IF i \in c THEN m - last[i] ELSE step[i]]
                dq == [i \in P |-> IF i \in c THEN st[i] * rate[i] ELSE dQ[i]]
                ends == {i \in P : last[i] + st[i] = m}
                clk == m % Base
            IN /\ \A i \in P : i \notin ends => l[i] = lev[i]
               /\ \A i \in ends : clk % Len(l[i]) = 0
               /\ Q' = [i \in P |-> IF i \in ends THEN Q[i] + dq[i] ELSE Q[i]]
               /\ dQ' = [i \in P |-> IF i \in ends THEN 0 ELSE dq[i]]
               /\ rate' = [i \in P |-> IF i \in ends THEN 0 ELSE rate[i]]
               /\ lev' = l /\ n' = clk /\ turn' = IF clk = 0 THEN turn + 1 ELSE turn
               /\ last' = [i \in P |-> IF i \in ends THEN clk ELSE last[i]]
               /\ step' = [i \in P |-> IF i \in ends THEN Len(l[i]) ELSE st[i]]
               /\ cov' = IF clk = 0 THEN [p \in Pairs |-> cov[p] - Base] ELSE cov
               /\ turn < Turns
       /\ UNCHANGED <<flow, wall>>
Next == Flux \/ End
Spec == Init /\ [][Next]_vars
Total == Sum(P, LAMBDA i : Q[i] + dQ[i]) + wall
Conserved == Total = 0
(* at the start of a particle's step all its pairs are accounted for up to now *)
Timely == phase = "flux" => \A p \in Pairs : \A x \in {p[1], p[2]} : Active(x) => cov[p] = n
Cleared == phase = "flux" => \A i \in P : Active(i) => dQ[i] = 0
=============================================================================
