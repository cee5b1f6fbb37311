------------------------------ MODULE Formula ------------------------------
(* What a formula means.  Tokens are records [t, s, n, d]: t = "o" (operator, bracket or comma s), "n" (number), or   *)
(* "i" (name s).  env: val gives the values of names, def the formulas of others, fun those of functions.           *)
EXTENDS BrowseRules
IsOp(x, S) == x.t = "o" /\ x.s \in S
RECURSIVE Merge(_)
(* a sign where an operand should begin belongs to the number that follows *)
Merge(s) == IF Len(s) = 0 THEN s
  ELSE LET r == Merge(SubSeq(s, 1, Len(s) - 1))  k == Len(r)  x == s[Len(s)] IN
       IF x.t = "n" /\ k >= 1 /\ ~(Len(s) >= 2 /\ s[Len(s) - 1].t # "o") /\ IsOp(r[k], {"+", "-"}) /\ (k = 1 \/ (r[k - 1].t = "o" /\ r[k - 1].s # ")"))
       THEN Append(SubSeq(r, 1, k - 1), [x EXCEPT !.n = IF r[k].s = "-" THEN 0 - @ ELSE @]) ELSE Append(r, x)
RECURSIVE Depth(_, _)
Depth(s, i) == IF i = 0 THEN 0 ELSE Depth(s, i - 1) + (IF IsOp(s[i], {"("}) THEN 1 ELSE IF IsOp(s[i], {")"}) THEN -1 ELSE 0)
Top(s, S) == {i \in 2..(Len(s) - 1) : IsOp(s[i], S) /\ Depth(s, i) = 0}
Highest(T) == CHOOSE i \in T : \A j \in T : j <= i
Lowest(T) == CHOOSE i \in T : \A j \in T : i <= j
Before(s, i) == SubSeq(s, 1, i - 1)
Behind(s, i) == SubSeq(s, i + 1, Len(s))
Fun(env, f, a) == IF f \notin DOMAIN env.fun THEN No ELSE LET r == env.fun[f] IN IF r.args # Len(a) THEN No ELSE
  LET x == Op("+", Op("*", I(r.a), a[1]), I(r.c)) IN IF Len(a) = 1 THEN x ELSE Op("+", x, Op("*", I(r.b), a[2]))
RECURSIVE Val(_, _), Named(_, _)
Named(env, x) == IF x \in DOMAIN env.def THEN Val(Merge(env.def[x]), env) ELSE IF x \in DOMAIN env.val THEN env.val[x] ELSE No
Val(s, env) ==
  IF Len(s) = 0 \/ Depth(s, Len(s)) # 0 \/ (\E i \in 1..Len(s) : Depth(s, i) < 0) THEN No
  ELSE IF Len(s) = 1 THEN CASE s[1].t = "n" -> Q(s[1].n, s[1].d) [] s[1].t = "i" -> Named(env, s[1].s) [] OTHER -> No
  ELSE LET A == Top(s, {"+", "-"})  M == Top(s, {"*", "/"})  P == Top(s, {"^"}) IN
    IF A # {} THEN LET i == Highest(A) IN Op(s[i].s, Val(Before(s, i), env), Val(Behind(s, i), env))
    ELSE IF M # {} THEN LET i == Highest(M) IN Op(s[i].s, Val(Before(s, i), env), Val(Behind(s, i), env))
    ELSE IF P # {} THEN LET i == Lowest(P) IN Op("^", Val(Before(s, i), env), Val(Behind(s, i), env))
    ELSE IF IsOp(s[1], {"("}) /\ IsOp(s[Len(s)], {")"}) THEN LET b == SubSeq(s, 2, Len(s) - 1) IN IF \E i \in 1..Len(b) : Depth(b, i) < 0 THEN No ELSE Val(b, env)
    ELSE IF s[1].t = "i" /\ IsOp(s[2], {"("}) /\ IsOp(s[Len(s)], {")"}) /\ ~(\E i \in 3..(Len(s) - 1) : Depth(s, i) = 0) THEN
      LET b == SubSeq(s, 3, Len(s) - 1)  C == {i \in 1..Len(b) : IsOp(b[i], {","}) /\ Depth(b, i) = 0} IN
      IF Cardinality(C) = 0 THEN Fun(env, s[1].s, << Val(b, env) >>)
      ELSE IF Cardinality(C) = 1 THEN LET i == CHOOSE i \in C : TRUE IN Fun(env, s[1].s, << Val(Before(b, i), env), Val(Behind(b, i), env) >>)
      ELSE No
    ELSE No
=============================================================================
