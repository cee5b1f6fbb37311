----------------------------- MODULE Boundaries -----------------------------
(* A particle in a box of two directions with any sides: it drifts, is put back into the box, its copies beyond    *)
(* the sides are made (direction after direction, from the particle and from the copies that are there already),   *)
(* its data change and the copies are refreshed, each from what it was made of.                                    *)
(* What matters: it is inside, on the straight line it came on; every copy needed exists, once, in its place, with *)
(* its velocity turned where mirrored, and with fresh data; and then no point of the box misses anything in reach. *)
EXTENDS BoxRules, Sequences, FiniteSets
CONSTANTS L, Vmax, Rule, All
D == 1..2
Sides == {<<"p", "p">>, <<"m", "m">>, <<"m", "o">>, <<"w", "m">>} \cup (IF All THEN {<<"o", "o">>, <<"o", "m">>, <<"w", "w">>} ELSE {})
VARIABLES b, p, g, rg, ph
vars == <<b, p, g, rg, ph>>
Closed(k) == b[k] # <<"o", "o">>
Init == /\ b \in [D -> Sides] /\ p \in [r : [D -> 0..L], v : [D -> (-Vmax)..Vmax], d : {0}, r0 : {<<0, 0>>}] /\ p.r0 = <<0, 0>>
        /\ g = << >> /\ rg = 0 /\ ph = "drift"
Keeps == \A k \in D : ((b[k][1] = "o" => p.r[k] + p.v[k] >= 0) /\ (b[k][2] = "o" => p.r[k] + p.v[k] <= L))
Drift == ph = "drift" /\ Keeps /\ ph' = "wrap" /\ p' = [p EXCEPT !.r0 = p.r, !.r = [k \in D |-> p.r[k] + p.v[k]]] /\ g' = << >> /\ UNCHANGED <<b, rg>>
Wh(x) == IF x < 0 THEN 1 ELSE IF x > L THEN 2 ELSE 0
Move(c, x) == Place(c, x, 0, L)
Wrap == /\ ph = "wrap" /\ ph' = "search"
        /\ LET c == [k \in D |-> MovedBy(b[k][1], b[k][2], Wh(p.r[k]))] IN
           p' = [p EXCEPT !.r = [k \in D |-> Move(c[k], p.r[k])],
                          !.r0 = [k \in D |-> IF Rule = "keepstart" THEN p.r0[k] ELSE Move(c[k], p.r0[k])],
                          !.v = [k \in D |-> IF Turned(c[k]) /\ Rule # "noturn" THEN -p.v[k] ELSE p.v[k]]]
        /\ UNCHANGED <<b, g, rg>>
(* copies of q (index i; 0 the particle itself, else a copy) in direction k *)
Copy(q, i, k, c) == [src |-> i, img |-> [q.img EXCEPT ![k] = c], r |-> [q.r EXCEPT ![k] = Move(c, q.r[k])], v |-> [q.v EXCEPT ![k] = IF Turned(c) THEN -q.v[k] ELSE q.v[k]], d |-> q.d, dir |-> k]
Self == [img |-> <<0, 0>>, r |-> p.r, v |-> p.v, d |-> p.d]
CodesOf(q, k, w) == LET s == Needed(b[k][1], b[k][2], q.r[k], L - q.r[k], w) \ {0} IN
                    IF Rule = "onesided" /\ 1 \in s THEN s \ {2} ELSE s
RECURSIVE Add(_, _, _, _)
Add(s, q, i, todo) == IF todo[2] = {} THEN s ELSE LET c == CHOOSE c \in todo[2] : \A z \in todo[2] : c <= z IN Add(Append(s, Copy(q, i, todo[1], c)), q, i, <<todo[1], todo[2] \ {c}>>)
RECURSIVE FromCopies(_, _, _, _, _)
FromCopies(s, n, i, k, w) == IF i > n THEN s ELSE FromCopies(Add(s, s[i], i, <<k, CodesOf(s[i], k, w)>>), n, i + 1, k, w)
Dir(s, k, w) == LET one == Add(s, Self, 0, <<k, CodesOf(Self, k, w)>>) IN
                IF Rule = "nocorners" \/ k = 1 THEN one ELSE FromCopies(one, IF Rule = "again" THEN Len(one) ELSE Len(s), 1, k, w)
Search == /\ ph = "search" /\ ph' = "search done" /\ \E w \in 0..L : /\ rg' = w /\ g' = Dir(Dir(<< >>, 1, w), 2, w)
          /\ UNCHANGED <<b, p>>
Change == /\ ph \in {"search done", "fresh"} /\ p.d < 2 /\ ph' = "changed" /\ p' = [p EXCEPT !.d = @ + 1, !.v = [k \in D |-> -p.v[k]]] /\ UNCHANGED <<b, g, rg>>
RECURSIVE Again(_, _)
Again(s, i) == IF i > Len(s) THEN s ELSE
  LET o == s[i]   from == IF o.src = 0 \/ Rule = "fromreal" THEN Self ELSE s[o.src]
      c == o.img[o.dir]
      n == Copy([from EXCEPT !.img = [o.img EXCEPT ![o.dir] = 0]], o.src, o.dir, c)
  IN Again([s EXCEPT ![i] = n], i + 1)
Refresh == /\ ph \in {"changed", "search done"} /\ ph' = "fresh" /\ g' = (IF Rule = "stale" THEN g ELSE Again(g, 1)) /\ UNCHANGED <<b, p, rg>>
Next0 == /\ ph = "fresh" /\ ph' = "drift" /\ p' = [p EXCEPT !.d = 0, !.r0 = <<0, 0>>] /\ g' = << >> /\ rg' = 0 /\ UNCHANGED b
Next == Drift \/ Wrap \/ Search \/ Change \/ Refresh \/ Next0
Spec == Init /\ [][Next]_vars
(* --- what must hold --- *)
There == ph \in {"search done", "changed", "fresh"}
Inside == (There \/ ph = "search") => \A k \in D : (b[k][1] # "o" => p.r[k] >= 0) /\ (b[k][2] # "o" => p.r[k] <= L)
Straight == ph \in {"search", "search done"} => \A k \in D : p.r[k] - p.r0[k] = p.v[k]
Set == {g[i].img : i \in 1..Len(g)}
NeededNow == {c \in {0, 1, 2, 3, 4} \X {0, 1, 2, 3, 4} : \A k \in D : c[k] \in Needed(b[k][1], b[k][2], p.r[k], L - p.r[k], rg)} \ {<<0, 0>>}
Complete == There => NeededNow \subseteq Set
Once == There => Cardinality(Set) = Len(g) /\ <<0, 0>> \notin Set
Genuine == ph \in {"search done", "fresh"} => \A i \in 1..Len(g) : \A k \in D : /\ g[i].img[k] \in Possible(b[k][1], b[k][2])
                        /\ g[i].r[k] = Move(g[i].img[k], p.r[k]) /\ g[i].v[k] = (IF Turned(g[i].img[k]) THEN -p.v[k] ELSE p.v[k])
Fresh == ph = "fresh" => \A i \in 1..Len(g) : g[i].d = p.d
(* any image of the particle in the unbounded picture that a point of the box can see is there *)
Unfold(k) == LET s == b[k] x == p.r[k] IN
  IF s = <<"p", "p">> THEN {x + n * L : n \in -2..2} ELSE
  {x} \cup (IF s[1] = "m" THEN {-x} ELSE {}) \cup (IF s[2] = "m" THEN {2 * L - x} ELSE {}) \cup (IF s = <<"m", "m">> THEN {x + 2 * L, x - 2 * L, -x - 2 * L, 4 * L - x} ELSE {})
Near(a, q) == a - q < rg /\ q - a < rg
Covered == There => \A y \in (0..L) \X (0..L) : \A z \in Unfold(1) \X Unfold(2) :
             (Near(y[1], z[1]) /\ Near(y[2], z[2])) => (z = <<p.r[1], p.r[2]>> \/ \E i \in 1..Len(g) : g[i].r[1] = z[1] /\ g[i].r[2] = z[2])
=============================================================================
