------------------------------- MODULE Output -------------------------------
(* Snapshot and restart output of a run: when files are due, how they are numbered, what is on disk after every file *)
(* operation, what a crash leaves behind and what a restarted run continues from.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cfg,    \* [first, dt, lite, lfirst, ldt, nrst]: the parameters of the run (times in ticks)
  mem,    \* [t, steps, sync, nout, tlast, tnext, nlite, ltlast, ltnext, lastrst]: the running simulation
  disk,   \* file name -> [st: "part"/"ok", c: content]; content of the restart log is the name of a file
  want,   \* files the Output() call in progress has to leave behind, complete
  point,  \* file the restart log has to name when the call is over ("" if it is left alone)
  pub,    \* step number of the state published by the last completed update of the restart log
  phase   \* "idle", "out" (inside Output), "boot" (state restored, nothing written yet), "down" (crashed)
vars == <<cfg, mem, disk, want, point, pub, phase>>

RS == "restart"
Snap(i) == "snap." \o ToString(i)
LiteF(i) == "lite." \o ToString(i)
Tmp == "tmp"
Present(f) == f \in DOMAIN disk
Complete(f) == Present(f) /\ disk[f].st = "ok"
NoContent == [steps |-> 0 - 1]
Fresh(c) == [t |-> 0, steps |-> 0, sync |-> TRUE, nout |-> 0, tlast |-> 0, tnext |-> c.first, nlite |-> 0, ltlast |-> 0, ltnext |-> c.lfirst, lastrst |-> 0]

Init0(c) == /\ cfg = c /\ mem = Fresh(c) /\ disk = << >> /\ want = {} /\ point = "" /\ pub = 0 - 1 /\ phase = "boot"

(* what Output() does with the counters: the same for the first call after set-up or restart and for every later one *)
Begin(m) ==
  LET ld == cfg.lite /\ m.t >= m.ltnext
      sd == m.t >= m.tnext
      rd == m.sync /\ m.steps - m.lastrst >= cfg.nrst
      m1 == IF ld THEN [m EXCEPT !.nlite = @ + 1, !.ltlast = m.ltnext, !.ltnext = m.ltnext + cfg.ldt] ELSE m
      m2 == IF sd THEN [m1 EXCEPT !.nout = @ + 1, !.tlast = m.tnext, !.tnext = m.tnext + cfg.dt] ELSE m1
  IN /\ mem' = IF rd THEN [m2 EXCEPT !.lastrst = m.steps] ELSE m2
     /\ want' = (IF ld THEN {LiteF(m2.nlite)} ELSE {}) \cup (IF sd THEN {Snap(m2.nout)} ELSE {}) \cup (IF rd THEN {Tmp} ELSE {})
     /\ point' = IF rd THEN Tmp ELSE IF sd THEN Snap(m2.nout) ELSE ""
     /\ phase' = "out" /\ UNCHANGED <<cfg, disk, pub>>

Start == phase = "boot" /\ Begin(mem)
Tick(tn, sy) == phase = "idle" /\ tn >= mem.t /\ Begin([mem EXCEPT !.t = tn, !.steps = @ + 1, !.sync = sy])
(* the run is ended by the wall-clock limit: the present state is dumped for a later restart *)
Kill == phase = "idle" /\ want' = {Tmp} /\ point' = Tmp /\ phase' = "out" /\ UNCHANGED <<cfg, mem, disk, pub>>

State(m) == [t |-> m.t, steps |-> m.steps, nout |-> m.nout, tlast |-> m.tlast, tnext |-> m.tnext, nlite |-> m.nlite, ltlast |-> m.ltlast, ltnext |-> m.ltnext]
Put(d, f, v) == [x \in DOMAIN d \cup {f} |-> IF x = f THEN v ELSE d[x]]
Drop(d, f) == [x \in DOMAIN d \ {f} |-> d[x]]
(* snapshot files are only ever opened when they are due; anything else is a scratch file *)
IsNamed(f) == f = RS \/ f = Tmp \/ \E i \in 1..(mem.nout + 2) : f = Snap(i) \/ f = LiteF(i)
Scratch(f) == ~IsNamed(f)
MayOpen(f) == f \in want \/ (f = RS /\ point # "") \/ Scratch(f)
Open(f) == phase = "out" /\ MayOpen(f) /\ disk' = Put(disk, f, [st |-> "part", c |-> ""]) /\ UNCHANGED <<cfg, mem, want, point, pub, phase>>
(* closing completes the file; a log holds the name of a file, everything else the present state *)
Close(f, log) == /\ phase = "out" /\ Present(f)
                 /\ disk' = Put(disk, f, [st |-> "ok", c |-> IF log # "" THEN log ELSE State(mem)])
                 /\ UNCHANGED <<cfg, mem, want, point, pub, phase>>
Move(a, b) == /\ phase = "out" /\ Present(a) /\ MayOpen(b) /\ disk' = Drop(Put(disk, b, disk[a]), a)
              /\ UNCHANGED <<cfg, mem, want, point, pub, phase>>
Delete(f) == /\ phase = "out" /\ Scratch(f) /\ Present(f) /\ disk' = Drop(disk, f) /\ UNCHANGED <<cfg, mem, want, point, pub, phase>>
Done == /\ phase = "out"
        /\ \A f \in want : Complete(f) /\ disk[f].c = State(mem)
        /\ point # "" => Complete(RS) /\ disk[RS].c = point
        /\ pub' = IF point # "" THEN mem.steps ELSE pub
        /\ want' = {} /\ point' = "" /\ phase' = "idle" /\ UNCHANGED <<cfg, mem, disk>>

(* Output() hands back the name of the regular snapshot it wrote, if any *)
Returned == IF Snap(mem.nout) \in want THEN Snap(mem.nout) ELSE ""
Crash == phase \in {"idle", "out"} /\ phase' = "down" /\ want' = {} /\ point' = "" /\ UNCHANGED <<cfg, mem, disk, pub>>
(* the user may point the log to any complete snapshot before restarting *)
Edit(f) == phase \in {"idle", "down"} /\ Complete(f) /\ f # RS /\ disk' = Put(disk, RS, [st |-> "ok", c |-> f]) /\ pub' = disk[f].c.steps /\ UNCHANGED <<cfg, mem, want, point, phase>>
(* a restarted run continues from the state the restart log names, or from the beginning if there is no log *)
Restored == IF Present(RS) THEN LET s == disk[disk[RS].c].c IN
              [t |-> s.t, steps |-> s.steps, sync |-> TRUE, nout |-> s.nout, tlast |-> s.tlast, tnext |-> s.tnext,
               nlite |-> s.nlite, ltlast |-> s.ltlast, ltnext |-> s.ltnext, lastrst |-> 0]
            ELSE Fresh(cfg)
Recover == phase = "down" /\ mem' = Restored /\ phase' = "boot" /\ UNCHANGED <<cfg, disk, want, point, pub>>
-----------------------------------------------------------------------------
(* C12: at every instant the restart log is complete and names a complete snapshot ... *)
RestartSafe == Present(RS) => Complete(RS) /\ disk[RS].c # "" /\ Complete(disk[RS].c)
(* ... that is not older than what was published before *)
NoLoss == (pub >= 0) => Present(RS) /\ (RestartSafe => disk[disk[RS].c].c.steps >= pub)
(* C09: snapshots are numbered without gaps and due times stay on the grid *)
OnGrid == /\ mem.tnext = cfg.first + mem.nout * cfg.dt /\ mem.ltnext = cfg.lfirst + mem.nlite * cfg.ldt
AllThere == phase \in {"idle", "boot"} => \A i \in 1..mem.nout : Complete(Snap(i)) /\ disk[Snap(i)].c.nout = i
InTime == phase = "idle" => \A i \in 1..mem.nout : disk[Snap(i)].c.t >= cfg.first + (i - 1) * cfg.dt
(* C11: a restarted run is where the published state was *)
Continues == phase = "boot" /\ Present(RS) => State(mem) = disk[disk[RS].c].c
=============================================================================
