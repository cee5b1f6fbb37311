----------------------------- MODULE ParamRules -----------------------------
(* What the text of a parameter file means.  Text is a sequence of character codes.                                *)
EXTENDS Integers, Sequences
Blanks == {9, 10, 11, 12, 13, 32}
Digit(c) == c >= 48 /\ c <= 57
None == [n |-> << >>, v |-> << >>]
Trim(s) == SelectSeq(s, LAMBDA ch : ch \notin Blanks)
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE Find(s, c, i + 1)
Pos(s, c) == Find(s, c, 1)
(* name and value of a line: [comment ":"] name "=" value; anything else, and comments, say nothing *)
Cut(line) == LET s == Trim(line)  e == Pos(s, 61)  c == Pos(s, 58) IN
             IF s = << >> \/ (s # << >> /\ s[1] = 35) \/ e = 0 \/ c > e THEN None
             ELSE [n |-> SubSeq(s, c + 1, e - 1), v |-> SubSeq(s, e + 1, Len(s))]
(* the numbers, as sign, digits without leading and trailing zeros, exponent: 0.d1d2d3... * 10^x *)
RECURSIVE LeadZ(_), TailZ(_), Num(_)
LeadZ(d) == IF d # << >> /\ d[1] = 48 THEN 1 + LeadZ(Tail(d)) ELSE 0
TailZ(d) == IF d # << >> /\ d[Len(d)] = 48 THEN 1 + TailZ(SubSeq(d, 1, Len(d) - 1)) ELSE 0
Num(d) == IF d = << >> THEN 0 ELSE 10 * Num(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
Signed(v) == v # << >> /\ v[1] \in {43, 45}
Body(v) == IF Signed(v) THEN Tail(v) ELSE v
Neg(v) == v # << >> /\ v[1] = 45
AllDigits(d) == \A i \in 1..Len(d) : Digit(d[i])
IsInt(v) == Body(v) # << >> /\ AllDigits(Body(v))
EPos(b) == IF Pos(b, 101) > 0 THEN Pos(b, 101) ELSE Pos(b, 69)
Mant(b) == IF EPos(b) = 0 THEN b ELSE SubSeq(b, 1, EPos(b) - 1)
Expo(b) == IF EPos(b) = 0 THEN << >> ELSE SubSeq(b, EPos(b) + 1, Len(b))
Whole(m) == IF Pos(m, 46) = 0 THEN m ELSE SubSeq(m, 1, Pos(m, 46) - 1)
Frac(m) == IF Pos(m, 46) = 0 THEN << >> ELSE SubSeq(m, Pos(m, 46) + 1, Len(m))
IsFloat(v) == LET b == Body(v)  m == Mant(b) IN
              /\ AllDigits(Whole(m)) /\ AllDigits(Frac(m)) /\ Len(Whole(m)) + Len(Frac(m)) > 0
              /\ (EPos(b) = 0 \/ (IsInt(Expo(b)) /\ Len(Expo(b)) < 5))
Int0(v) == LET d == Body(v)  z == SubSeq(d, LeadZ(d) + 1, Len(d)) IN [neg |-> Neg(v) /\ z # << >>, d |-> z, x |-> 0]
Flt0(v) == LET b == Body(v)  m == Mant(b)  ex == Expo(b)
               a == Whole(m) \o Frac(m)  z == LeadZ(a)
               d == SubSeq(a, z + 1, Len(a) - (IF z = Len(a) THEN 0 ELSE TailZ(a)))
               k == Len(Whole(m)) - z + (IF ex = << >> THEN 0 ELSE IF Neg(ex) THEN 0 - Num(Body(ex)) ELSE Num(Body(ex))) IN
           IF d = << >> THEN [neg |-> FALSE, d |-> << >>, x |-> 0] ELSE [neg |-> Neg(v), d |-> d, x |-> k]
Str0(v) == [neg |-> FALSE, d |-> v, x |-> 0]
Fits(kind, v) == CASE kind = "i" -> IsInt(v) [] kind = "f" -> IsFloat(v) [] OTHER -> TRUE
Value(kind, v) == CASE kind = "i" -> Int0(v) [] kind = "f" -> Flt0(v) [] OTHER -> Str0(v)
=============================================================================
