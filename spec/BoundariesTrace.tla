-------------------------- MODULE BoundariesTrace --------------------------
(* Recorded wraps and recorded copies of the real code against BoxRules.                                           *)
EXTENDS BoxRules, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES l, cf
vars == <<l, cf>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
D == 1..cf.nd
In(x, s) == \E j \in 1..Len(s) : s[j] = x
(* a particle beyond a side; the others have not changed (they are not listed) *)
GoodMove(q) == /\ \A k \in D : LET c == MovedBy(cf.lhs[k], cf.rhs[k], q.w[k]) IN
                       /\ In(c, q.m[k]) /\ In(c, q.m0[k]) /\ q.s[k] \in {IF Turned(c) THEN 1 ELSE 0, 2}
               /\ q.in /\ q.rest
GoodWrap(e) == \A n \in 1..Len(e.ps) : GoodMove(e.ps[n])
(* copies *)
Img(e) == {<<e.ghosts[n].s, [k \in D |-> e.ghosts[n].img[k]]>> : n \in 1..Len(e.ghosts)}
Codes == 0..4
RECURSIVE Prod(_, _, _)
Prod(x, k, acc) == IF k > cf.nd THEN acc ELSE
  LET s == Needed(cf.lhs[k], cf.rhs[k], x.lo[k], x.hi[k], x.rg[k]) IN Prod(x, k + 1, {Append(a, c) : a \in acc, c \in s})
NeededOf(x) == IF x.d THEN {} ELSE Prod(x, 1, {<< >>}) \ {[k \in D |-> 0]}
Genuine(e, q) == /\ q.s \in 1..Len(e.reals) /\ ~e.reals[q.s].d /\ ~q.dead /\ ~q.act /\ q.pos
                 /\ \A k \in D : q.img[k] \in Possible(cf.lhs[k], cf.rhs[k])
                 /\ \E k \in D : q.img[k] # 0
                 /\ e.at # "step" => q.vel /\ q.dat
GoodCopies(e) == LET I == Img(e) IN
                 /\ e.books
                 /\ \A n \in 1..Len(e.ghosts) : Genuine(e, e.ghosts[n])
                 /\ Cardinality(I) = Len(e.ghosts)
                 /\ \A i \in 1..Len(e.reals) : \A c \in NeededOf(e.reals[i]) : <<i, c>> \in I
                 /\ \A i \in 1..Len(e.reals) : e.at # "moved" /\ ~e.reals[i].d => \A k \in D : (cf.lhs[k] # "o" => e.reals[i].lo[k] >= 0) /\ (cf.rhs[k] # "o" => e.reals[i].hi[k] >= 0)
TInit == l = 1 /\ cf = [nd |-> 0]
Ev(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
TStart == Ev("init") /\ cf' = Trace[l]
TWrap == Ev("wrap") /\ UNCHANGED cf /\ GoodWrap(Trace[l]) = TRUE
TCopies == Ev("copies") /\ UNCHANGED cf /\ GoodCopies(Trace[l]) = TRUE
TStop == Ev("raise") /\ UNCHANGED cf /\ (\E s \in {"Error: Smoothing length too large, self-interaction will occur"} : s = Trace[l].msg) = TRUE
TDone == Ev("done") /\ UNCHANGED cf
TNext == TStart \/ TWrap \/ TCopies \/ TStop \/ TDone
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
