-------------------------- MODULE InteractionsTrace --------------------------
(* Every recorded pass over the particles is judged on its own; a step must contain the passes it needs.       *)
EXTENDS Interactions, Json, IOUtils
VARIABLES l, cf, done, fresh
vars == <<l, cf, done, fresh>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Kinds == {"dens", "hydro", "hgrav", "grav", "grad", "flux"}
Present(q) == {k \in Kinds : q[k] # << >>}
HasGas(e) == {n \in 1..Len(e.act) : e.p[e.act[n]].t = 0} # {}
(* kinds a pass may consist of *)
Shapes == IF cf.mfv THEN {{}, {"dens"}, {"grav"}, {"grad"}, {"flux"}} ELSE {{"dens"}, {"hydro"}, {"hgrav", "grav"}, {"grav"}}
GoodKind(e, ct, k, guess) ==
  LET P == e.p q == e.q[k] IN
  /\ ProcessedOnce(P, q, Todo(P, k, cf))
  /\ CASE k = "dens" /\ guess -> TRUE
       [] k = "dens" /\ cf.mfv -> \A n \in 1..Len(q) : GoodDist(cf, P, q[n])
       [] k = "dens" -> \A n \in 1..Len(q) : GoodList(cf, P, q[n], SeesDens, FALSE)
       [] k \in {"hydro", "hgrav"} -> \A n \in 1..Len(q) : GoodList(cf, P, q[n], Gas, TRUE)
       [] k = "grad" -> \A n \in 1..Len(q) : GoodList(cf, P, q[n], Gas, TRUE)
       [] k = "flux" -> GoodFlux(cf, P, q)
       [] k = "grav" -> \A n \in 1..Len(q) : LET hs == {m \in 1..Len(e.q.hgrav) : e.q.hgrav[m].i = q[n].i} IN
                           GoodGrav(cf, P, e.c, ct, q[n], IF hs = {} THEN << >> ELSE e.q.hgrav[CHOOSE m \in hs : TRUE].nb)
(* while setting up, kernel radii start from a guess: only the last density pass is used *)
Guess(n) == fresh /\ n < Len(Trace) /\ Trace[n+1].e = "pass" /\ Trace[n+1].q.dens # << >>
GoodPass(e, guess) ==
  LET ks == Present(e.q) ct == Contents(e.c) IN
  /\ e.dup = 0
  /\ (e.act # << >> => ks \in Shapes \/ (ks = {} /\ ~HasGas(e)))     \* no forces if only collisionless particles are active
  /\ GoodTree(cf, e.p, e.c, ks \cap {"hydro", "hgrav", "grav", "grad", "flux"} # {})
  /\ \A k \in ks : GoodKind(e, ct, k, guess)
  /\ \A n \in 1..Len(e.dev) : e.dev[n] <= cf.tol
Needed == IF cf.mfv THEN {"grad"} ELSE IF cf.grav THEN {"dens", "grav"} ELSE {"dens"} \cup (IF "gas" \in done THEN {"hydro"} ELSE {})
TInit == l = 1 /\ cf = Trace[1] /\ done = {} /\ fresh = TRUE
Step(e) == CASE e.e = "init" -> cf' = e /\ done' = {}
             [] e.e = "pass" -> GoodPass(e, Guess(l')) = TRUE /\ cf' = cf /\ done' = done \cup Present(e.q) \cup (IF e.act = << >> THEN {} ELSE IF HasGas(e) THEN {"some", "gas"} ELSE {"some"})
             [] e.e = "star" -> cf' = cf /\ done' = done /\ GoodStar(cf, e) = TRUE /\ \A n \in 1..Len(e.dev) : e.dev[n] <= cf.tol
             [] e.e = "step" -> cf' = cf /\ done' = {} /\ ("some" \in done => Needed \subseteq done)
             [] e.e = "done" -> UNCHANGED <<cf, done>>
             [] e.e = "raise" -> UNCHANGED <<cf, done>> /\ cf.mayraise /\ e.self     \* kernels wider than a periodic box are refused
             [] OTHER -> FALSE
TNext == l < Len(Trace) /\ l' = l + 1 /\ Step(Trace[l']) /\ fresh' = (Trace[l'].e = "init" \/ (fresh /\ Trace[l'].e # "step"))
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
