------------------------------ MODULE Session ------------------------------
(* The life of a simulation as its user sees it: set up once, then run in pieces of any size, interactively or not; *)
(* pieces must add up to one run.  Rule selects defects that TLC has to refute.                                    *)
EXTENDS SessionRules, TLC
CONSTANTS End, Nmax, Far, Rule
VARIABLES ph, out, done, at, state, written, handed, byrun, param, msg, asked
vars == <<ph, out, done, at, state, written, handed, byrun, param, msg, asked>>
Snap(i) == IF out[i] THEN "x" ELSE ""
Out == [i \in 1..Far |-> Snap(i)]
Init == /\ ph = "open" /\ out \in [1..Far -> BOOLEAN] /\ done = FALSE /\ at = 0 /\ state = << >> /\ written = << >> /\ handed = << >> /\ byrun = {} /\ param = 0 /\ msg = "ok" /\ asked = [from |-> 0, n |-> 0, whole |-> TRUE]
Call(w) == /\ msg' = IF Refused(w, ph) /\ ~(Rule = "again" /\ w = "setup" /\ ph = "ready") /\ ~(Rule = "unlocked" /\ w = "set") THEN "refused" ELSE "ok"
           /\ ph' = IF msg' = "ok" THEN (IF w = "setup" THEN "ready" ELSE After(w, ph)) ELSE ph
           /\ param' = IF msg' = "ok" /\ w = "set" THEN IF ph = "open" THEN 1 ELSE 2 ELSE param
           /\ state' = IF msg' = "ok" /\ w = "setup" /\ ph = "ready" THEN << >> ELSE state
           /\ UNCHANGED <<out, done, at, written, handed, byrun, asked>>
Steps(a, b) == [i \in 1..(b - a) |-> "step"]
Over(a, n) == CASE Rule = "dowhile" -> Lesser(Far, Greater(a + 1, Goal(a, n, End, Nmax))) [] Rule = "onemore" -> Lesser(Far, IF Target(a, n, Nmax) >= a /\ a < End THEN Lesser(End, Target(a, n, Nmax) + 1) ELSE a)
                [] Rule = "total" -> Greater(a, Lesser(End, IF n < 0 THEN Nmax ELSE n)) [] OTHER -> Goal(a, n, End, Nmax)
Go(n, inter, b, whole) == LET s == Upto(Out, at, b) IN
  /\ at' = b /\ written' = written \o s /\ msg' = "ok"
  /\ handed' = IF inter THEN handed \o (IF Rule = "lost" THEN SelectSeq(s, LAMBDA i : i < b) ELSE s) ELSE handed
  /\ byrun' = IF inter THEN byrun ELSE byrun \cup {s[i] : i \in 1..Len(s)}
  /\ state' = state \o Steps(at, b) \o (IF Rule = "dirty" /\ b > at /\ b >= Goal(at, n, End, Nmax) THEN << "final" >> ELSE << >>)
  /\ done' = (done \/ (n < 0 /\ b >= Goal(at, n, End, Nmax))) /\ asked' = [from |-> at, n |-> n, whole |-> whole] /\ UNCHANGED <<ph, out, param>>
Run == ph = "ready" /\ \E n \in -1..Far : (n <= Far - at) /\ Go(n, FALSE, Over(at, n), TRUE)
IRun == ph = "ready" /\ \E n \in -1..Far : (n <= Far - at) /\ Go(n, TRUE, Over(at, n), TRUE)
Killed == ph = "ready" /\ \E n \in -1..Far : (n <= Far - at) /\ Goal(at, n, End, Nmax) > at /\ Go(n, FALSE, at + 1, FALSE)
Soon == ph = "ready" /\ \E n \in -1..Far : (n <= Far - at) /\ Goal(at, n, End, Nmax) > at /\ \E b \in (at + 1)..Goal(at, n, End, Nmax) : Go(n, TRUE, b, FALSE)
PreSetup == Call("presetup")
Setup == Call("setup")
Set == Call("set")
Import == Call("import")
Next == PreSetup \/ Setup \/ Set \/ Import \/ Run \/ IRun \/ Killed \/ Soon
Spec == Init /\ [][Next]_vars
(* the pieces are one run *)
OneRun == state = Steps(0, at)
NotPast == at <= Greater(End, 0)
Complete == done => at >= Lesser(End, Nmax)
Stays == at > 0 => ph = "ready"
NoMore == [][at' <= End /\ (at >= End => at' = at)]_vars
AllWritten == written = Upto(Out, 0, at)
AllHanded == {handed[i] : i \in 1..Len(handed)} \cup byrun = {i \in 1..at : out[i]} /\ Cardinality({handed[i] : i \in 1..Len(handed)}) = Len(handed) /\ \A i, j \in 1..Len(handed) : i < j => handed[i] < handed[j]
Fixed == param # 2
(* a request for n steps makes n steps, or fewer only because the end is reached; one without a number goes to the end *)
AsAsked == LET made == at - asked.from IN asked.whole => \/ made = asked.n \/ (made < asked.n /\ at >= End) \/ (asked.n < 0 /\ at >= Lesser(End, Nmax)) \/ (made = 0 /\ asked.from >= End)
=============================================================================
