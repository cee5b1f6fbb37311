---------------------------- MODULE FormulaModel ----------------------------
(* The way formulas are evaluated - a stack filled from the left, emptied from the right - against their meaning,  *)
(* for every string of up to MaxLen tokens.  Rule selects defects that TLC has to refute.                          *)
EXTENDS Formula, TLC
CONSTANTS MaxLen, Rule
VARIABLES str, done
vars == <<str, done>>
O(x) == [t |-> "o", s |-> x, n |-> 0, d |-> 1]
Num(k) == [t |-> "n", s |-> "", n |-> k, d |-> 1]
Nam(x) == [t |-> "i", s |-> x, n |-> 0, d |-> 1]
Tokens == {O("+"), O("-"), O("*"), O("/"), O("^"), O("("), O(")"), Num(2), Nam("x"), Nam("f"), O(",")}
env == [val |-> [x |-> I(3)], def |-> << >>, fun |-> [f |-> [args |-> 2, a |-> 1, b |-> -5, c |-> 1]]]
(* results of parsing: the stack filled so far, the next position, whether it went well *)
Fail == [k |-> << >>, p |-> 0, ok |-> FALSE]
Pushed(r, x) == [r EXCEPT !.k = Append(@, x)]
At(s, p, S) == p <= Len(s) /\ IsOp(s[p], S)
RECURSIVE Expr(_, _, _), Terms(_, _, _), Term(_, _, _), Factors(_, _, _), Factor(_, _, _), Atom(_, _, _)
Atom(s, p, k) ==
  IF p > Len(s) THEN Fail
  ELSE IF s[p].t = "n" \/ (s[p].t = "i" /\ ~At(s, p + 1, {"("})) THEN [k |-> Append(k, s[p]), p |-> p + 1, ok |-> TRUE]
  ELSE IF s[p].t = "i" THEN LET a == Expr(s, p + 2, k) IN
         IF ~a.ok \/ ~At(s, a.p, {","}) THEN Fail ELSE LET b == Expr(s, a.p + 1, a.k) IN IF ~b.ok \/ ~At(s, b.p, {")"}) THEN Fail ELSE Pushed([b EXCEPT !.p = @ + 1], [s[p] EXCEPT !.t = "f"])
  ELSE IF IsOp(s[p], {"("}) THEN LET a == Expr(s, p + 1, k) IN IF ~a.ok \/ ~At(s, a.p, {")"}) THEN Fail ELSE [a EXCEPT !.p = @ + 1]
  ELSE Fail
RECURSIVE Powers(_, _)
Powers(s, r) == IF r.ok /\ At(s, r.p, {"^"}) THEN LET a == Atom(s, r.p + 1, r.k) IN Powers(s, Pushed(a, s[r.p])) ELSE r
Factor(s, p, k) == LET a == Atom(s, p, k) IN IF Rule = "leftpower" THEN Powers(s, a)
                   ELSE IF a.ok /\ At(s, a.p, {"^"}) THEN Pushed(Factor(s, a.p + 1, a.k), s[a.p]) ELSE a
Factors(s, r, S) == IF r.ok /\ At(s, r.p, S) THEN Factors(s, Pushed(Factor(s, r.p + 1, r.k), s[r.p]), S) ELSE r
Term(s, p, k) == Factors(s, Factor(s, p, k), IF Rule = "flat" THEN {"*", "/", "+", "-"} ELSE {"*", "/"})
Terms(s, r, S) == IF r.ok /\ At(s, r.p, S) THEN (IF Rule = "rightminus" THEN Pushed(Terms(s, Term(s, r.p + 1, r.k), S), s[r.p]) ELSE Terms(s, Pushed(Term(s, r.p + 1, r.k), s[r.p]), S)) ELSE r
Expr(s, p, k) == Terms(s, Term(s, p, k), {"+", "-"})
RECURSIVE Eval(_)
(* emptying: value and what is left *)
Eval(k) == LET x == k[Len(k)]  r == SubSeq(k, 1, Len(k) - 1) IN
  IF x.t \in {"o", "f"} THEN LET b == Eval(r)  a == Eval(b.k)  u == IF Rule = "swapped" THEN b.v ELSE a.v  w == IF Rule = "swapped" THEN a.v ELSE b.v IN
       [v |-> IF x.t = "o" THEN Op(x.s, u, w) ELSE Fun(env, "f", <<u, w>>), k |-> a.k]
  ELSE [v |-> IF x.t = "n" THEN Q(x.n, x.d) ELSE Named(env, x.s), k |-> r]
Machine(s) == LET r == Expr(s, 1, << >>) IN IF ~r.ok \/ r.p # Len(s) + 1 THEN No ELSE Eval(r.k).v
Init == str = << >> /\ done = FALSE
Extend == ~done /\ Len(str) < MaxLen /\ \E x \in Tokens : str' = Append(str, x) /\ done' = FALSE
Evaluate == ~done /\ str # << >> /\ done' = TRUE /\ UNCHANGED str
Next == Extend \/ Evaluate
Spec == Init /\ [][Next]_vars
SameMeaning == done => LET m == Merge(str) IN Machine(m) = Val(m, env)
=============================================================================
