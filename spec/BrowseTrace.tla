---------------------------- MODULE BrowseTrace ----------------------------
(* Recorded use of the analysis package: snapshots fetched, given up and handed out, and formulas evaluated.        *)
EXTENDS Formula, Json, IOUtils, TLC
VARIABLES l, cf, S, D
vars == <<l, cf, S, D>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Empty == [sims |-> << >>, cs |-> 0, alloc |-> {}, size |-> << >>, stamp |-> << >>, x |-> << >>, m |-> << >>, t |-> << >>, now |-> 0]
TInit == l = 1 /\ cf = << >> /\ S = Empty /\ D = << >>
Ev(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
TStart == Ev("init") /\ cf' = Trace[l] /\ S' = Empty /\ D' = << >>
TTick == Ev("tick") /\ S' = [S EXCEPT !.now = Trace[l].now] /\ UNCHANGED <<cf, D>>
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE Live(_, _)
Live(P, i) == IF i = 0 THEN 0 ELSE Live(P, i - 1) + (IF P.sims[i].live = 0 THEN 0 ELSE P.size[P.sims[i].live])
LiveNow(P) == Live(P, Len(P.sims))
LiveIds(P) == {P.sims[i].live : i \in 1..Len(P.sims)}
(* what was done to memory, one act after the other: nothing used that is not there, and what was given up was given up for the next that was read *)
RECURSIVE Acts(_, _, _, _, _)
Acts(P, acts, k, freed, live) == IF k > Len(acts) THEN [ok |-> freed = {}, P |-> P] ELSE LET a == acts[k] IN
  CASE a.k = "free" -> IF a.id \in P.alloc /\ a.id \notin freed THEN Acts(P, acts, k + 1, freed \cup {a.id}, live) ELSE [ok |-> FALSE, P |-> P]
    [] a.k = "read" -> LET A2 == (P.alloc \ freed) \cup {a.id} IN IF a.id \in DOMAIN P.size /\ Evicts(P.size, P.stamp, P.alloc, A2, a.id, live, cf.max) THEN Acts([P EXCEPT !.alloc = A2, !.stamp[a.id] = P.now], acts, k + 1, {}, live) ELSE [ok |-> FALSE, P |-> P]
    [] a.k = "use" -> IF (a.id \in P.alloc \/ a.id \in LiveIds(P)) /\ a.id \notin freed THEN Acts([P EXCEPT !.stamp[a.id] = P.now], acts, k + 1, freed, live) ELSE [ok |-> FALSE, P |-> P]
    [] OTHER -> Acts(P, acts, k + 1, freed, live)
RECURSIVE AddAll(_, _, _)
AddAll(P, info, k) == IF k > Len(info) THEN P ELSE LET s == info[k] IN AddAll([P EXCEPT !.size = Ext(@, s.id, s.size), !.stamp = Ext(@, s.id, P.now), !.x = Ext(@, s.id, s.x), !.m = Ext(@, s.id, s.m), !.t = Ext(@, s.id, s.t)], info, k + 1)
Ids(info) == [k \in 1..Len(info) |-> info[k].id]
AsSeen(P, e) == e.st.cs = P.cs /\ e.st.cur = [i \in 1..Len(P.sims) |-> P.sims[i].cur] /\ {e.st.alloc[i] : i \in 1..Len(e.st.alloc)} = P.alloc /\ e.st.mem = Sum(P.size, P.alloc) + LiveNow(P)
Reads(e) == {e.acts[k].id : k \in {j \in 1..Len(e.acts) : e.acts[j].k = "read"}}
Frees(e) == {e.acts[k].id : k \in {j \in 1..Len(e.acts) : e.acts[j].k = "free"}}
Same(e, P) == e.acts = << >> /\ AsSeen(P, e)
Can(P, s) == s \in P.alloc \/ s \in LiveIds(P) \/ Fits(P.size, s, LiveNow(P), cf.max)
(* one snapshot asked for: it is handed out and in memory, or it does not exist or fit and nothing has changed *)
One(e, s, P2) == IF s = 0 \/ ~Can(S, s) THEN e.err /\ Frees(e) = {} /\ Reads(e) = {} /\ AsSeen(S, e) /\ S' = S
  ELSE LET r == Acts(S, e.acts, 1, {}, LiveNow(S)) IN ~e.err /\ e.ret = <<s>> /\ r.ok /\ Reads(e) = (IF s \in S.alloc \/ s \in LiveIds(S) THEN {} ELSE {s}) /\ S' = [r.P EXCEPT !.sims = P2.sims, !.cs = P2.cs] /\ AsSeen(S', e)
(* beside a live simulation, one that has to make room may be too large to be read again *)
CanAgain(P, s) == s \in LiveIds(P) \/ Fits(P.size, s, LiveNow(P), cf.max)
Cur(P, s) == [P EXCEPT !.sims[P.cs].cur = s]
NoLive(e) == \A k \in 1..Len(e.acts) : e.acts[k].k # "live"
(* several snapshots needed: all that is handed out is as it is on file *)
Many(e, need, good) == LET r == Acts(S, e.acts, 1, {}, LiveNow(S)) IN
  /\ r.ok /\ NoLive(e) /\ Reads(e) \subseteq need /\ S' = r.P /\ AsSeen(S', e)
  /\ (IF \E s \in need : ~Can(S, s) \/ (Cardinality(need) > 1 /\ ~CanAgain(S, s)) THEN TRUE ELSE good)
V(e) == [k \in 1..Len(e.v) |-> [n |-> e.v[k].n, d |-> e.v[k].d]]
Plain(q) == [n |-> q.n, d |-> q.d]
By(e, d, u) == e.scale = [n |-> cf.unit[d][u], d |-> 1]
Com(P, s) == Q((P.x[s][1] * P.m[s][1]) + (P.x[s][2] * P.m[s][2]), P.m[s][1] + P.m[s][2])
Deriv(P, a, b, k) == Q(P.x[b][k] - P.x[a][k], P.t[b] - P.t[a])
NewSim(list, cur, live) == [snaps |-> list, cur |-> cur, live |-> live]
WithLive(P, i, s) == [P EXCEPT !.sims[i].live = s, !.sims[i].cur = s]
(* a first look at a simulation that has only itself to show *)
Showing(e, i) == LET id == e.ret[1]  P == AddAll(S, << [id |-> id, size |-> 1, x |-> <<5, 6>>, m |-> <<1, 2>>, t |-> 0] >>, 1) IN
  ~e.err /\ Len(e.ret) = 1 /\ (S.sims[i].live = 0 => id \notin DOMAIN S.size) /\ Reads(e) = {} /\ Frees(e) = {} /\ S' = WithLive(P, i, id) /\ AsSeen(S', e)
Sim(e) == IF e.a = 0 THEN S.cs ELSE e.a
OpOk(e) == CASE
     e.op = "load" -> (LET P == AddAll(S, e.info, 1)  ids == Ids(e.info)  first == IF ids = << >> THEN 0 ELSE ids[1] IN
          IF ids = << >> \/ (e.flag = "cache" /\ ~Can(P, first)) THEN e.err /\ Reads(e) = {} /\ Frees(e) = {} /\ AsSeen(S, e) /\ S' = S
          ELSE LET r == Acts(P, e.acts, 1, {}, LiveNow(P)) IN ~e.err /\ r.ok /\ Reads(e) = (CASE e.flag = "cache" -> {first} [] e.flag = "store" -> {ids[k] : k \in 1..Len(ids)} [] OTHER -> {})
               /\ S' = [r.P EXCEPT !.sims = Append(@, NewSim(ids, first, 0)), !.cs = Len(S.sims) + 1] /\ AsSeen(S', e))
  [] e.op = "new" -> ~e.err /\ S' = [S EXCEPT !.sims = Append(@, NewSim(<< >>, 0, 0)), !.cs = Len(S.sims) + 1] /\ Same(e, S')
  [] e.op = "select" -> IF e.a > Len(S.sims) THEN e.err /\ S' = S /\ Same(e, S) ELSE ~e.err /\ S' = [S EXCEPT !.cs = e.a] /\ Same(e, S')
  [] e.op = "snap" -> LET s == Nth(S.sims[S.cs].snaps, e.n) IN One(e, s, Cur(S, s))
  [] e.op = "next" -> LET s == Following(S.sims[S.cs].snaps, S.sims[S.cs].cur) IN One(e, s, Cur(S, s))
  [] e.op = "prev" -> LET s == Preceding(S.sims[S.cs].snaps, S.sims[S.cs].cur) IN One(e, s, Cur(S, s))
  [] e.op = "cur" -> IF S.sims[Sim(e)].cur = 0 THEN Showing(e, Sim(e)) ELSE One(e, S.sims[Sim(e)].cur, S)
  [] e.op = "num" -> One(e, Nth(S.sims[e.a].snaps, e.n), S)
  [] e.op = "nextof" -> One(e, Following(S.sims[e.a].snaps, e.n), S)
  [] e.op = "prevof" -> One(e, Preceding(S.sims[e.a].snaps, e.n), S)
  [] e.op = "iter" -> LET L == S.sims[e.a].snaps IN Many(e, {L[k] : k \in 1..Len(L)}, ~e.err /\ e.ret = L)
  [] e.op = "fetch" -> Many(e, {e.n}, ~e.err /\ V(e) = [k \in 1..2 |-> Plain(I(S.x[e.n][k]))] /\ By(e, "r", e.u))
  [] e.op = "series" -> LET L == S.sims[e.a].snaps IN Many(e, {L[k] : k \in 1..Len(L)}, ~e.err /\ V(e) = [k \in 1..Len(L) |-> Plain(Com(S, L[k]))] /\ By(e, "r", e.u))
  [] e.op = "part" -> LET L == S.sims[e.a].snaps IN Many(e, {L[k] : k \in 1..Len(L)}, ~e.err /\ V(e) = [k \in 1..Len(L) |-> Plain(I(S.x[L[k]][e.k]))] /\ By(e, "r", e.u))
  [] e.op = "times" -> LET L == S.sims[e.a].snaps IN Many(e, {L[k] : k \in 1..Len(L)}, ~e.err /\ V(e) = [k \in 1..Len(L) |-> Plain(I(S.t[L[k]]))] /\ By(e, "t", "0"))
  [] e.op = "deriv" -> LET L == S.sims[e.a].snaps  p == Preceding(L, e.n)  q == Following(L, e.n)  a == IF p = 0 THEN e.n ELSE p  b == IF q = 0 THEN e.n ELSE q  r == Deriv(S, a, b, e.k) IN
          Many(e, {a, b, e.n}, r.u \/ (~e.err /\ V(e) = << Plain(r) >> /\ e.scale = Plain(Q(cf.unit["r"]["0"], cf.unit["t"]["0"]))))
  [] e.op = "live" -> (LET old == S.sims[e.a].live  id == e.st.cur[e.a]  P == IF old = 0 THEN AddAll(S, << [id |-> id, size |-> e.size, x |-> <<5, 6>>, m |-> <<1, 2>>, t |-> 0] >>, 1) ELSE S IN
          ~e.err /\ (IF old = 0 THEN id \notin DOMAIN S.size ELSE id = old) /\ Reads(e) = {} /\ Frees(e) = {} /\ S' = WithLive(P, e.a, id) /\ AsSeen(S', e))
  [] e.op = "add" -> LET P == AddAll(S, e.info, 1)  id == e.info[1].id IN ~e.err /\ S' = [P EXCEPT !.sims[e.a].snaps = Append(@, id), !.alloc = @ \cup {id}] /\ Same(e, S')
  [] OTHER -> FALSE /\ S' = S
TOp == Ev("op") /\ OpOk(Trace[l]) /\ UNCHANGED <<cf, D>>
(* formulas *)
Rat(r) == [ok |-> TRUE, u |-> FALSE, n |-> r.n, d |-> r.d]
Env(star, def) == LET data == IF star THEN cf.star ELSE cf.data IN [val |-> [x \in DOMAIN data |-> Rat(data[x])], def |-> def, fun |-> cf.fun]
Means(r, e, refused) == e.v.d = 0 \/ (IF ~r.ok THEN refused ELSE r.u \/ (~refused /\ e.v.n = r.n /\ e.v.d = r.d))
TFormula == LET e == Trace[l]  def == IF e.err THEN D ELSE Ext(D, e.name, e.toks) IN
  Ev("formula") /\ (\E r \in {Val(Merge(e.toks), Env(e.star, D))} : Means(r, e, e.err \/ e.lost)) = TRUE /\ (e.err \/ e.lost \/ e.v.d = 0 \/ (IF e.sf = "" THEN e.scale = e.by ELSE By(e, e.sf, e.u))) /\ D' = def /\ UNCHANGED <<cf, S>>
TAgain == LET e == Trace[l] IN Ev("again") /\ (\E r \in {Val(Merge(D[e.name]), Env(e.star, D))} : Means(r, e, e.lost)) = TRUE /\ UNCHANGED <<cf, S, D>>
(* every formula over an alphabet: those refused have no meaning, the others the right value *)
Sign(s) == \E i \in 1..(Len(s) - 1) : s[i].t # "o" /\ s[i + 1].t # "o"
Risky(s) == \E i \in 2..(Len(s) - 1) : s[i].t = "n" /\ IsOp(s[i + 1], {"^"}) /\ IsOp(s[i - 1], {"+", "-"}) /\ (i = 2 \/ IsOp(s[i - 2], {"+", "-", "*", "/", "^", "("}))
Alpha == {[t |-> "o", s |-> x, n |-> 0, d |-> 1] : x \in {"+", "-", "*", "/", "^", "(", ")"}} \cup {[t |-> "n", s |-> "", n |-> 2, d |-> 1], [t |-> "i", s |-> "x", n |-> 0, d |-> 1]}
TEvery == LET e == Trace[l] IN Ev("every") /\ (\E G \in {{e.good[i].s : i \in 1..Len(e.good)}} : \E E \in {Env(FALSE, << >>)} :
  /\ \A i \in 1..Len(e.good) : LET r == Val(Merge(e.good[i].s), E) IN r.ok /\ (r.u \/ e.good[i].v.d = 0 \/ (e.good[i].v.n = r.n /\ e.good[i].v.d = r.d))
  /\ \A L \in 1..e.L : \A s \in [1..L -> Alpha] : (~Sign(s) /\ ~Risky(s) /\ s \notin G) => ~Val(Merge(s), E).ok) = TRUE /\ UNCHANGED <<cf, S, D>>
(* the quantities that come with the package, at points where they are rational *)
Root(n) == CHOOSE k \in 0..200 : k * k = n
RR(e) == Root((e.p[1] * e.p[1]) + (e.p[2] * e.p[2]))
Rad(e) == Root((e.p[1] * e.p[1]) + (e.p[2] * e.p[2]) + (e.p[3] * e.p[3]))
Along(e, w) == Q((e.p[1] * w[1]) + (e.p[2] * w[2]) + (e.p[3] * w[3]), Rad(e))
Flat(e, w) == Q((e.p[1] * w[1]) + (e.p[2] * w[2]), RR(e))
Round(e, w) == Q((e.p[1] * w[2]) - (e.p[2] * w[1]), RR(e))
Polar(e, w) == Q((e.p[3] * ((e.p[1] * w[1]) + (e.p[2] * w[2]))) - (RR(e) * RR(e) * w[3]), RR(e) * Rad(e))
Known(e) == CASE e.name = "r" -> I(Rad(e)) [] e.name = "R" -> I(RR(e)) [] e.name = "vr" -> Along(e, e.v_) [] e.name \in {"vR", "vR2d"} -> Flat(e, e.v_) [] e.name = "vphi" -> Round(e, e.v_)
  [] e.name = "vtheta" -> Polar(e, e.v_) [] e.name = "ar" -> Along(e, e.a_) [] e.name = "aR" -> Flat(e, e.a_) [] e.name = "aphi" -> Round(e, e.a_) [] e.name = "atheta" -> Polar(e, e.a_)
  [] e.name = "press" -> I((e.g - 1) * e.rho * e.u) [] e.name = "temp" -> I((e.g - 1) * e.u * e.mu) [] e.name = "sound" -> I(e.g * (e.g - 1) * e.u) [] OTHER -> Q(e.p[3], Rad(e))
Dim(n) == CASE n \in {"r", "R"} -> "r" [] n \in {"vr", "vR", "vR2d", "vphi", "vtheta", "sound"} -> "v" [] n \in {"ar", "aR", "aphi", "atheta"} -> "a" [] n \in {"press", "temp"} -> n [] OTHER -> ""
Scaled(e) == IF Dim(e.name) = "" THEN e.scale = [n |-> 1, d |-> 1] ELSE By(e, Dim(e.name), e.u_)
TKnown == LET e == Trace[l] IN Ev("known") /\ (~e.err /\ Scaled(e) /\ (\E r \in {Known(e)} : r.u \/ (e.v.n = r.n /\ e.v.d = r.d))) = TRUE /\ UNCHANGED <<cf, S, D>>
TPhi == LET e == Trace[l] IN Ev("phi") /\ (~e.err /\ e.scale = [n |-> 1, d |-> 1] /\ Plain(Q(e.p[1], RR(e))) = e.c /\ Plain(Q(e.p[2], RR(e))) = e.s) = TRUE /\ UNCHANGED <<cf, S, D>>
(* the radius within which k/16 of the mass lies: half way between the first particle that reaches it and the one before *)
RECURSIVE Inside(_, _, _)
Inside(e, i, j) == IF j = 0 THEN 0 ELSE Inside(e, i, j - 1) + (IF e.r[j] <= e.r[i] THEN e.m[j] ELSE 0)
RECURSIVE Mass(_, _)
Mass(e, j) == IF j = 0 THEN 0 ELSE Mass(e, j - 1) + e.m[j]
Reach(e) == {i \in 1..Len(e.r) : Inside(e, i, Len(e.r)) * 16 >= e.k * Mass(e, Len(e.r))}
Least(e) == CHOOSE i \in Reach(e) : \A j \in Reach(e) : e.r[i] <= e.r[j]
Lagrange(e) == LET i == Least(e)  B == {j \in 1..Len(e.r) : e.r[j] < e.r[i]} IN IF B = {} THEN I(e.r[i]) ELSE LET j == CHOOSE j \in B : \A k \in B : e.r[k] <= e.r[j] IN Q(e.r[i] + e.r[j], 2)
TLag == LET e == Trace[l] IN Ev("lag") /\ (~e.err /\ e.v = Plain(Lagrange(e)) /\ By(e, "r", e.u)) = TRUE /\ UNCHANGED <<cf, S, D>>
(* what there is in nd dimensions, and only in a simulation that is live *)
Parts(n) == CASE n \in {"R", "phi"} -> {"x", "y"} [] n \in {"r", "theta"} -> {"x", "y", "z"} [] n \in {"vR", "vphi"} -> {"x", "y", "vx", "vy"} [] n = "vr" -> {"x", "y", "z", "vx", "vy", "vz"}
  [] n = "aR" -> {"x", "y", "ax", "ay"} [] n \in {"ar", "atheta"} -> {"x", "y", "z", "ax", "ay", "az"} [] n = "press" -> {"rho", "u"} [] OTHER -> {n}
There(e) == \A q \in Parts(e.name) : q # "nosuch" /\ (q \in {"y", "vy", "ay"} => e.nd >= 2) /\ (q \in {"z", "vz", "az"} => e.nd = 3) /\ (q \in {"ax", "ay", "az", "dudt"} => e.live)
TAsk == LET e == Trace[l] IN Ev("ask") /\ e.err = ~There(e) /\ UNCHANGED <<cf, S, D>>
TNext == TStart \/ TTick \/ TOp \/ TFormula \/ TAgain \/ TEvery \/ TKnown \/ TPhi \/ TLag \/ TAsk
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
