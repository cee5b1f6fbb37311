---------------------------- MODULE SessionRules ----------------------------
(* How far a run goes, what it writes and hands back.  Steps are counted from set-up; n < 0: to the end.           *)
EXTENDS Integers, Sequences, FiniteSets
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a < b THEN b ELSE a
Target(at, n, nmax) == IF n < 0 THEN nmax ELSE at + n
(* end: the first step at which the end time is reached (larger than everything if it is not) *)
Goal(at, n, end, nmax) == Greater(at, Lesser(end, Target(at, n, nmax)))
Refused(what, ph) == CASE what = "presetup" -> ph # "open"
                       [] what = "setup" -> ph # "imported"
                       [] what = "set" -> ph # "open"
                       [] what \in {"settype", "importwrong", "importwhat", "importtype"} -> TRUE
                       [] what = "import" -> ph = "open"
                       [] what \in {"irun", "run", "setok"} -> FALSE
After(what, ph) == CASE what = "presetup" /\ ph = "open" -> "imported" [] what = "setup" /\ ph = "imported" -> "ready" [] OTHER -> ph
RECURSIVE Upto(_, _, _)
Upto(out, a, b) == IF a >= b THEN << >> ELSE (IF out[a + 1] = "" THEN << >> ELSE << a + 1 >>) \o Upto(out, a + 1, b)   \* steps with a snapshot, after a up to b
=============================================================================
