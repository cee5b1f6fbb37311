--------------------------- MODULE SessionTrace ---------------------------
(* A real simulation, driven through its public calls, against one run of it made step by step (cf.ref).           *)
EXTENDS SessionRules, Json, IOUtils, TLC
VARIABLES l, cf, ph, at
vars == <<l, cf, ph, at>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ref(i) == cf.ref[i + 1]
Last == Len(cf.ref) - 1
End == IF Ref(Last).over THEN Last ELSE 1000000
Out == [i \in 1..Last |-> Ref(i).out]
Files(n) == {Ref(i).out : i \in {j \in 0..n : Ref(j).out # ""}}
Rng(s) == {s[i] : i \in 1..Len(s)}
TInit == l = 1 /\ cf = [nmax |-> 0, ref |-> << >>] /\ ph = "open" /\ at = 0
Ev(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
TStart == Ev("init") /\ cf' = Trace[l] /\ ph' = "open" /\ at' = 0
TCall == LET e == Trace[l] IN Ev("call") /\ (e.err = Refused(e.what, ph)) = TRUE /\ ph' = After(e.what, ph) /\ UNCHANGED <<cf, at>>
(* the state is the one that the run step by step had at that step; so are the files *)
As(e) == e.h = Ref(e.steps).h /\ e.steps = Ref(e.steps).steps /\ Rng(e.files) = Files(e.steps) /\ Len(e.files) = Cardinality(Files(e.steps))
TReady == LET e == Trace[l] IN (Ev("ready") \/ Ev("again")) /\ (ph = "ready" /\ e.steps = at /\ As(e)) = TRUE /\ UNCHANGED <<cf, ph, at>>
Want(e) == Goal(at, e.n, End, cf.nmax)
Known(e) == e.steps \in at..Last /\ Want(e) \in at..Last
TIRun == LET e == Trace[l] IN
  /\ Ev("irun") /\ (ph = "ready" /\ Known(e) /\ As(e)) = TRUE
  /\ (IF e.stop = "soon" THEN e.steps <= Want(e) /\ (Want(e) > at => e.steps > at) ELSE e.steps = Want(e)) = TRUE
  /\ (LET s == Upto(Out, at, e.steps) IN e.names = [i \in 1..Len(s) |-> Out[s[i]]] /\ e.views = [i \in 1..Len(s) |-> Ref(s[i]).v]) = TRUE
  /\ at' = e.steps /\ UNCHANGED <<cf, ph>>
(* a run that was told to stop leaves what is needed to go on; one that got where it should go says so *)
TRun == LET e == Trace[l]  first == Lesser(at + 1, Want(e)) IN
  /\ Ev("run") /\ (ph = "ready" /\ Known(e) /\ As(e)) = TRUE
  /\ (e.steps = (IF e.stop = "kill" THEN first ELSE Want(e))) = TRUE
  /\ (e.cont = (e.steps < Want(e))) = TRUE
  /\ ((e.stop = "kill" /\ e.steps > at) => e.tmp) = TRUE
  /\ at' = e.steps /\ UNCHANGED <<cf, ph>>
TKept == Ev("kept") /\ (Trace[l].ok) = TRUE /\ UNCHANGED <<cf, ph, at>>
(* what a snapshot has of each kind of particle: an array of that length, nothing where there are no particles, an error where there is no such thing *)
Real(e, ty) == IF ty = "default" THEN (IF e.sph > 0 THEN "sph" ELSE "star") ELSE ty
Length(e, ty) == CASE ty = "sph" -> e.sph [] ty = "star" -> e.star [] OTHER -> 0
Present(e, ty, n) == /\ n # "nosuch" /\ (n \in {"y", "vy", "ay"} => e.nd >= 2) /\ (n \in {"z", "vz", "az"} => e.nd = 3) /\ (n \in {"rho", "u", "dudt", "iorig"} => ty = "sph")
ArrayOk(e, a) == LET ty == Real(e, a.ty) IN IF ty = "other" \/ a.name = "nosuch" \/ (Length(e, ty) > 0 /\ ~Present(e, ty, a.name)) THEN a.err ELSE ~a.err /\ a.n = Length(e, ty) /\ a.same
TArrays == LET e == Trace[l] IN Ev("arrays") /\ (e.whole /\ e.freed /\ \A i \in 1..Len(e.all) : ArrayOk(e, e.all[i])) = TRUE /\ UNCHANGED <<cf, ph, at>>
TNext == TArrays \/ TStart \/ TCall \/ TReady \/ TIRun \/ TRun \/ TKept
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
