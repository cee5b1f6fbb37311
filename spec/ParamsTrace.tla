---------------------------- MODULE ParamsTrace ----------------------------
(* Recorded operations on real parameter sets against ParamRules.  keys[i] is the name of parameter i, kind[i] its  *)
(* kind; Q[o] the values of object o (0: the parameters, 1: the copy that the simulation owns).                    *)
EXTENDS ParamRules, FiniteSets, Json, IOUtils, TLC
VARIABLES l, cf, Q, lock
vars == <<l, cf, Q, lock>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(cf.keys)
Idx(n) == {i \in 1..N : cf.keys[i] = n}
V(x) == [neg |-> x.neg, d |-> x.d, x |-> x.x]
Assign(P, n, v) == LET s == Idx(n) IN IF s = {} THEN P ELSE LET i == CHOOSE i \in s : TRUE IN [P EXCEPT ![i] = Value(cf.kind[i], v)]
Read(P, t) == LET r == Cut(t) IN Assign(P, r.n, r.v)
RECURSIVE ReadAll(_, _, _)
ReadAll(P, ls, i) == IF i > Len(ls) THEN P ELSE ReadAll(TLCEval(Read(P, ls[i])), ls, i + 1)
(* what the event reports as changed, since the last event on this object *)
Changed(P, e) == [i \in 1..N |-> IF \E j \in 1..Len(e.chg) : e.chg[j].i = i THEN V(e.chg[CHOOSE j \in 1..Len(e.chg) : e.chg[j].i = i]) ELSE P[i]]
Default == [i \in 1..N |-> V(cf.vals[i])]
Same(a, b) == a = b \/ (Len(a.d) > 15 /\ Len(b.d) <= 15 /\ a.neg = b.neg)
Name(s) == CHOOSE i \in 1..N : cf.keys[i] = s
RunId == <<114, 117, 110, 95, 105, 100>>
Ndim == <<110, 100, 105, 109>>
Sim == <<115, 105, 109>>
TInit == l = 1 /\ cf = [keys |-> << >>, kind |-> << >>, vals |-> << >>] /\ Q = << >> /\ lock = FALSE
Ev(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
Fixed(e) == e.grown = FALSE
TStart == Ev("init") /\ cf' = Trace[l] /\ Q' = (<< >>) /\ lock' = FALSE
TNew == LET e == Trace[l] IN Ev("new") /\ (Fixed(e) /\ Len(e.chg) = 0) = TRUE /\ Q' = << Default >> /\ lock' = FALSE /\ UNCHANGED cf
TLine == LET e == Trace[l] IN Ev("line") /\ Fixed(e) = TRUE /\ Q' = [Q EXCEPT ![1] = Read(Q[1], e.text)] /\ (Q'[1] = Changed(Q[1], e)) = TRUE /\ UNCHANGED <<cf, lock>>
(* a whole file: defaults first, then its lines; refused without a run id *)
TFile == LET e == Trace[l] IN Ev("file") /\ Fixed(e) = TRUE /\ Q' = [Q EXCEPT ![1] = TLCEval(ReadAll(TLCEval(Default), e.lines, 1))] /\ (Q'[1] = Changed(Q[1], e)) = TRUE
         /\ ((e.err # "") = (Q'[1][Name(RunId)].d = << >>)) = TRUE /\ UNCHANGED <<cf, lock>>
TNoFile == LET e == Trace[l] IN Ev("nofile") /\ (Fixed(e) /\ e.err # "") = TRUE /\ UNCHANGED <<cf, lock>> /\ Q' = [Q EXCEPT ![1] = Changed(Q[1], e)]
(* a simulation has a copy of its own; type and dimensions are those it was made with *)
TMake == LET e == Trace[l]  P == Assign(Assign(Q[1], Ndim, e.nd), Sim, e.sim) IN
         Ev("make") /\ Fixed(e) = TRUE /\ Q' = << P, P >> /\ (P = Changed(Q[1], e)) = TRUE /\ lock' = FALSE /\ UNCHANGED cf
TCopy == LET e == Trace[l] IN Ev("copy") /\ (Fixed(e) /\ Len(e.chg) = 0) = TRUE /\ UNCHANGED <<cf, Q, lock>>
(* setting a parameter of the simulation: refused once they have been used, and for its type and dimensions *)
TSet == LET e == Trace[l]  no == lock \/ e.k \in {Ndim, Sim} IN
        Ev("set") /\ Fixed(e) = TRUE /\ ((e.err # "") = no) = TRUE /\ Q' = [Q EXCEPT ![2] = IF no THEN @ ELSE Assign(@, e.k, e.v)] /\ (Q'[2] = Changed(Q[2], e)) = TRUE /\ UNCHANGED <<cf, lock>>
(* handing back a value *)
TGet == LET e == Trace[l]  s == Idx(e.k) IN Ev("get") /\ Fixed(e) = TRUE /\ (IF s = {} THEN e.err # "" ELSE LET i == CHOOSE i \in s : TRUE IN
          e.err = "" /\ Len(e.chg) = 0 /\ Fits(cf.kind[i], e.out) /\ Same(Q[e.o][i], Value(cf.kind[i], e.out))) = TRUE /\ UNCHANGED <<cf, Q, lock>>
(* the list of names handed to Python *)
TKeys == LET e == Trace[l] IN Ev("keys") /\ ({e.names[i] : i \in 1..Len(e.names)} = {cf.keys[i] : i \in {j \in 1..N : cf.kind[j] # "s"}} /\ Len(e.names) = Cardinality({j \in 1..N : cf.kind[j] # "s"})) = TRUE /\ UNCHANGED <<cf, Q, lock>>
(* the record of the parameters; reading it gives them back *)
TRecord == LET e == Trace[l] IN
           Ev("record") /\ Fixed(e) = TRUE /\ \E P \in {ReadAll(TLCEval(Default), e.lines, 1)} : (\A i \in 1..N : Same(Q[1][i], P[i]) /\ Same(Q[1][i], V(e.back[i]))) = TRUE /\ (Len(e.chg) = 0) = TRUE /\ UNCHANGED <<cf, Q, lock>>
(* use of the parameters: no parameter is used that does not exist; from now on they are fixed *)
TUse == LET e == Trace[l] IN Ev("use") /\ (Fixed(e) /\ e.err = "") = TRUE /\ lock' = TRUE /\ Q' = [Q EXCEPT ![2] = Changed(Q[2], e)] /\ UNCHANGED cf
(* every line over an alphabet, with three parameters *)
KindOf(k) == CASE k = <<97>> -> "i" [] k = <<98>> -> "f" [] k = <<115>> -> "s" [] OTHER -> ""
GoodAll(e) == \E al \in {{e.alpha[i] : i \in 1..Len(e.alpha)}} : \E eff \in {{e.eff[i].t : i \in 1..Len(e.eff)}} :
   /\ \A i \in 1..Len(e.eff) : LET x == e.eff[i]  r == Cut(x.t) IN r.n = <<x.k>> /\ (Fits(KindOf(r.n), r.v) => Value(KindOf(r.n), r.v) = V(x))
   /\ \A n \in 0..e.L : \A t \in [1..n -> al] : LET r == Cut(t) IN (KindOf(r.n) # "" /\ Fits(KindOf(r.n), r.v)) => t \in eff
TAll == LET e == Trace[l] IN Ev("all") /\ (Fixed(e) /\ Len(e.chg) = 0) = TRUE /\ GoodAll(e) = TRUE /\ UNCHANGED <<cf, Q, lock>>
TNext == TAll \/ TStart \/ TNew \/ TLine \/ TFile \/ TNoFile \/ TMake \/ TCopy \/ TSet \/ TGet \/ TKeys \/ TRecord \/ TUse
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
