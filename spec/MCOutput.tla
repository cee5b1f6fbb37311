------------------------------ MODULE MCOutput ------------------------------
(* The writing protocol of the code over the disk of Output: which file operations one Output() call performs, with a crash possible between any two. *)
EXTENDS Output
CONSTANTS MaxT, Steps, InPlace, MaxCrash
VARIABLES todo, crashes
mvars == <<todo, crashes>>
(* operations of one file update: in place, or through a scratch file and a rename *)
Via(f, log) == IF InPlace THEN <<[o |-> "open", f |-> f, g |-> "", l |-> log], [o |-> "close", f |-> f, g |-> "", l |-> log]>>
               ELSE <<[o |-> "open", f |-> "new." \o f, g |-> "", l |-> log], [o |-> "close", f |-> "new." \o f, g |-> "", l |-> log], [o |-> "move", f |-> "new." \o f, g |-> f, l |-> ""]>>
Plain(f) == <<[o |-> "open", f |-> f, g |-> "", l |-> ""], [o |-> "close", f |-> f, g |-> "", l |-> ""]>>
Plan(w, m) == (IF LiteF(m.nlite) \in w THEN Plain(LiteF(m.nlite)) ELSE << >>) \o
              (IF Snap(m.nout) \in w THEN Plain(Snap(m.nout)) \o Via(RS, Snap(m.nout)) ELSE << >>) \o
              (IF Tmp \in w THEN Via(Tmp, "") \o Via(RS, Tmp) ELSE << >>)
MCInit == /\ \E fi \in 0..1, d \in 1..2, li \in BOOLEAN, nr \in 1..2 :
               Init0([first |-> fi, dt |-> d, lite |-> li, lfirst |-> 0, ldt |-> 2, nrst |-> nr])
          /\ todo = << >> /\ crashes = 0
MCStart == Start /\ todo' = Plan(want', mem') /\ UNCHANGED crashes
MCTick == \E d \in Steps, sy \in BOOLEAN : mem.t + d <= MaxT /\ Tick(mem.t + d, sy) /\ todo' = Plan(want', mem') /\ UNCHANGED crashes
MCKill == mem.t < MaxT /\ Kill /\ todo' = Plan(want', mem) /\ UNCHANGED crashes
MCOp == /\ todo # << >> /\ UNCHANGED crashes /\ todo' = Tail(todo)
        /\ LET h == Head(todo) IN CASE h.o = "open" -> Open(h.f) [] h.o = "close" -> Close(h.f, h.l) [] OTHER -> Move(h.f, h.g)
MCDone == todo = << >> /\ Done /\ UNCHANGED mvars
MCCrash == crashes < MaxCrash /\ Crash /\ crashes' = crashes + 1 /\ todo' = << >>
MCEdit == phase = "down" /\ crashes = 1 /\ (\E i \in 1..mem.nout : Edit(Snap(i))) /\ UNCHANGED mvars
MCRecover == Recover /\ UNCHANGED mvars
MCEnd == phase = "idle" /\ mem.t >= MaxT - 1 /\ UNCHANGED <<vars, mvars>>
MCNext == MCStart \/ MCTick \/ MCKill \/ MCOp \/ MCDone \/ MCCrash \/ MCEdit \/ MCRecover \/ MCEnd
MCSpec == MCInit /\ [][MCNext]_<<vars, mvars>> /\ WF_<<vars, mvars>>(MCOp) /\ WF_<<vars, mvars>>(MCDone) /\ WF_<<vars, mvars>>(MCStart) /\ WF_<<vars, mvars>>(MCRecover)
(* every Output() call ends and every crash is recovered from *)
Live == (phase \in {"out", "boot", "down"}) ~> (phase = "idle" \/ phase = "down")
=============================================================================
