-------------------------- MODULE BlockStepsTrace --------------------------
(* Validates recorded executions of the real main loop (harness/stepper) against BlockSteps.   *)
EXTENDS BlockSteps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
Ln == Trace[l]
Is(e) == l <= Len(Trace) /\ Ln.e = e /\ l' = l + 1
SeqSet(s) == {s[k] : k \in DOMAIN s}
ActSet(q) == {i \in DOMAIN q : q[i].act}
PairSet(s) == {<<s[k][1], s[k][2]>> : k \in DOMAIN s}

TInit == /\ l = 2 /\ Trace[1].e = "init" /\ Start(Trace[1])
TStart == /\ Is("init") /\ pc = "done"
          /\ cfg' = Ln /\ clk' = [n |-> 0, nres |-> 0, lmax |-> 0, ts |-> 0, dtmax |-> 0, t |-> 0]
          /\ p' = [i \in 1..(Ln.ng + Ln.ns) |-> Part0] /\ pc' = "assign"
TDone == /\ Is("done") /\ pc = "adv" /\ pc' = "done" /\ UNCHANGED <<cfg, clk, p>>
TAdv == /\ Is("adv") /\ Advance
        /\ clk'.n = Ln.n /\ clk'.t = Ln.t /\ Ln.exact
        /\ ActSet(p') = SeqSet(Ln.act)
        /\ \A i \in All : Ln.drift[i] \in {-1, clk'.t - p[i].tlast}
TForce == /\ Is("force") /\ Force(Ln.lneib, PairSet(Ln.nb), PairSet(Ln.nbx))
          /\ Ln.stale = <<>>
          /\ \A i \in Gas : Ln.ev[i] = IF p[i].act THEN 1 ELSE 0
TNeib == /\ Is("neib") /\ Neib(Ln.lneib, PairSet(Ln.nb), PairSet(Ln.nbx))
TLimit == /\ Is("limit") /\ Limit
          /\ \A i \in All : p'[i].level = Ln.level[i] /\ p'[i].nstep = Ln.nstep[i]
          /\ {i \in Gas : p'[i].act} = {i \in SeqSet(Ln.act) : i \in Gas}
          /\ (cfg.limiter = "simple" /\ ~cfg.mfv) => Ln.ret = CutCount
TAssign == /\ Is("assign")
           /\ Assign(Ln.crit, Ln.level, Ln.lneib)
           /\ Ln.exact
           /\ clk'.n = Ln.n /\ clk'.nres = Ln.nres /\ clk'.lmax = Ln.lmax /\ clk'.ts = Ln.ts
           /\ \A i \in All : /\ p'[i].level = Ln.level[i] /\ p'[i].nstep = Ln.nstep[i]
                             /\ cfg.nlevels > 1 => p'[i].nlast = Ln.nlast[i]
                             /\ p'[i].ends => p'[i].dtn = Ln.dtn[i]
           /\ {i \in All : p'[i].ends} = SeqSet(Ln.ends)
           /\ (pc = "assign" /\ clk.t > 0) => \A i \in Stars : Ln.sev[i] = IF p[i].act THEN (IF cfg.sim = "nbody" THEN cfg.npec ELSE 1) ELSE 0
TEnd == /\ Is("end") /\ EndStep
        /\ Ln.left = <<>>
        /\ \A i \in All : /\ Ln.tlast[i] = p'[i].tlast /\ Ln.nlast[i] = p'[i].nlast /\ Ln.dt[i] = p'[i].dt
                          /\ (p'[i].kick # -1 /\ p'[i].elapsed > 0 /\ Ln.kick[i] # -1 /\ ~(SchemeOf(i) = "dkd" /\ p[i].cut))
                                => Ln.kick[i] = p'[i].elapsed
TNext == TStart \/ TDone \/ TAdv \/ TForce \/ TNeib \/ TLimit \/ TAssign \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
