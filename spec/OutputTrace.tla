----------------------------- MODULE OutputTrace -----------------------------
EXTENDS Output, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Conf(e) == [first |-> e.first, dt |-> e.dt, lite |-> e.lite, lfirst |-> e.lfirst, ldt |-> e.ldt, nrst |-> e.nrst]
TInit == l = 1 /\ Init0(Conf(Trace[1]))
Counters(e, m) == e.t = m.t /\ e.steps = m.steps /\ e.nout = m.nout /\ e.tnext = m.tnext /\ (cfg.lite => e.nlite = m.nlite /\ e.ltnext = m.ltnext)
TNext == /\ l < Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l'] IN
            CASE e.e = "init" -> cfg' = Conf(e) /\ mem' = Fresh(Conf(e)) /\ disk' = << >> /\ want' = {} /\ point' = "" /\ pub' = 0 - 1 /\ phase' = "boot"
              [] e.e = "start" -> Start /\ e.t = mem.t /\ e.steps = mem.steps
              [] e.e = "tick" -> e.exact /\ Tick(e.t, e.sync) /\ mem'.steps = e.steps
              [] e.e = "kill" -> Kill
              [] e.e = "open" -> Open(e.f)
              [] e.e = "close" -> Close(e.f, e.log)
              [] e.e = "move" -> Move(e.f, e.g)
              [] e.e = "del" -> Delete(e.f)
              [] e.e = "done" -> Done /\ Counters(e, mem) /\ e.ret \in {"?", Returned}
              [] e.e = "crash" -> Crash
              [] e.e = "edit" -> Edit(e.f)
              [] e.e = "recover" -> Recover /\ Counters(e, mem') /\ e.same
              [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
