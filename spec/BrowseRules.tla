---------------------------- MODULE BrowseRules ----------------------------
(* Snapshots of which only some fit in memory, and the arithmetic of formulas on their data.                       *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Sum(_, _)
Sum(size, A) == IF A = {} THEN 0 ELSE LET x == CHOOSE x \in A : TRUE IN size[x] + Sum(size, A \ {x})
(* reading s may leave A2 of what was in memory (A); beside it there are live bytes that cannot be given up *)
Fits(size, s, live, max) == size[s] + live <= max
Evicts(size, stamp, A, A2, s, live, max) == LET V == A \ A2 IN
  /\ s \notin A /\ s \in A2 /\ (A2 \ {s}) \subseteq A /\ Sum(size, A2) + live <= max
  /\ \A v \in V : \A w \in (A2 \ {s}) : stamp[v] <= stamp[w]                                          \* least recently used first
  /\ (V = {} \/ \E v \in V : (\A u \in V : stamp[u] <= stamp[v]) /\ Sum(size, A2) + size[v] + live > max)   \* and no more than needed
(* n-th of a list as in Python; 0 if there is none *)
Nth(list, n) == IF n >= 0 /\ n < Len(list) THEN list[n + 1] ELSE IF n < 0 /\ n >= 0 - Len(list) THEN list[Len(list) + n + 1] ELSE 0
Where(list, s) == IF \E i \in 1..Len(list) : list[i] = s THEN CHOOSE i \in 1..Len(list) : list[i] = s ELSE 0
Following(list, s) == LET i == Where(list, s) IN IF i = 0 \/ i = Len(list) THEN 0 ELSE list[i + 1]
Preceding(list, s) == LET i == Where(list, s) IN IF i <= 1 THEN 0 ELSE list[i - 1]
(* rational numbers; ok = FALSE: no formula, u: without a value that matters *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN 0 - a ELSE a
No == [ok |-> FALSE, u |-> FALSE, n |-> 0, d |-> 1]
Undef == [ok |-> TRUE, u |-> TRUE, n |-> 0, d |-> 1]
Big(a) == Abs(a) > 20000
Q(n, d) == IF d = 0 THEN Undef ELSE LET g == Gcd(Abs(n), Abs(d))  s == IF d < 0 THEN -1 ELSE 1 IN
           IF Big((s * n) \div g) \/ Big((s * d) \div g) THEN Undef ELSE [ok |-> TRUE, u |-> FALSE, n |-> (s * n) \div g, d |-> (s * d) \div g]
I(n) == Q(n, 1)
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE IF Big(a) THEN 100000 ELSE LET p == Pow(a, k - 1) IN IF Big(p) THEN 100000 ELSE a * p
Op(o, a, b) == IF ~a.ok \/ ~b.ok THEN No ELSE IF a.u \/ b.u THEN Undef
  ELSE CASE o = "+" -> Q((a.n * b.d) + (b.n * a.d), a.d * b.d) [] o = "-" -> Q((a.n * b.d) - (b.n * a.d), a.d * b.d)
         [] o = "*" -> Q(a.n * b.n, a.d * b.d) [] o = "/" -> Q(a.n * b.d, a.d * b.n)
         [] OTHER -> IF b.d # 1 \/ Abs(b.n) > 6 THEN Undef ELSE LET x == Pow(a.n, Abs(b.n))  y == Pow(a.d, Abs(b.n)) IN IF Big(x) \/ Big(y) THEN Undef ELSE IF b.n < 0 THEN Q(y, x) ELSE Q(x, y)
===========================================================================
