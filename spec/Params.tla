------------------------------- MODULE Params -------------------------------
(* Parameters of a simulation: read from lines of text, set one by one, copied into a simulation, locked, recorded. *)
(* Every line of at most L characters is tried; Rule selects unsound readings that TLC has to refute.              *)
EXTENDS ParamRules, TLC
CONSTANTS L, Rule
VARIABLES P, line, given, own, locked, ph
vars == <<P, line, given, own, locked, ph>>
Keys == {<<97>>, <<98>>, <<115>>}                    (* a integer, b float, s string *)
Kind(k) == CASE k = <<97>> -> "i" [] k = <<98>> -> "f" [] OTHER -> "s"
Alphabet == {97, 98, 115, 61, 58, 35, 32, 9, 48, 49, 46, 45}
Lines == UNION {[1..n -> Alphabet] : n \in 0..L}
Default == [k \in Keys |-> CASE Kind(k) = "i" -> Int0(<<55>>) [] Kind(k) = "f" -> Flt0(<<55, 46, 53>>) [] OTHER -> Str0(<<>>)]
(* the reading of a line under the various rules *)
RECURSIVE Last(_, _, _)
Last(s, c, i) == IF i = 0 THEN 0 ELSE IF s[i] = c THEN i ELSE Last(s, c, i - 1)
Read(t) == LET s == IF Rule = "tabs" THEN SelectSeq(t, LAMBDA ch : ch # 32) ELSE Trim(t) 
               e == Pos(s, 61)
               c == IF Rule = "lastcolon" THEN Last(s, 58, Len(s)) ELSE Pos(s, 58) IN
           IF Rule = "noequals" /\ s # << >> /\ s[1] # 35 /\ e = 0 /\ c = 0 THEN [n |-> s, v |-> s]
           ELSE IF Rule \in {"tabs", "lastcolon"} THEN (IF s = << >> \/ (s # << >> /\ s[1] = 35) \/ e = 0 \/ c > e THEN None ELSE [n |-> SubSeq(s, c + 1, e - 1), v |-> SubSeq(s, e + 1, Len(s))])
           ELSE IF Rule = "hash" /\ s # << >> /\ Pos(s, 35) > 0 THEN None ELSE Cut(t)
Assign(Q, r) == IF r.n \in Keys THEN [Q EXCEPT ![r.n] = IF Fits(Kind(r.n), r.v) THEN Value(Kind(r.n), r.v) ELSE Int0(<<48>>)] ELSE Q
(* the text that a parameter is recorded as *)
RECURSIVE Text(_)
Text(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Text(n \div 10), 48 + (n % 10))
Shown(k, q) == CASE Kind(k) = "s" -> q.d
                 [] q.d = << >> -> <<48>>
                 [] Kind(k) = "i" -> (IF q.neg THEN <<45>> ELSE << >>) \o q.d
                 [] OTHER -> LET d == IF Rule = "rounded" THEN SubSeq(q.d, 1, 1) ELSE q.d IN
                             (IF q.neg THEN <<45>> ELSE << >>) \o <<48, 46>> \o d \o <<101>> \o (IF q.x < 0 THEN <<45>> \o Text(0 - q.x) ELSE Text(q.x))
Record(Q, k) == k \o <<32, 61, 32>> \o Shown(k, Q[k])
RECURSIVE ReadAll(_, _, _)
ReadAll(Q, S, left) == IF left = {} THEN Q ELSE LET k == CHOOSE k \in left : TRUE IN ReadAll(Assign(Q, Cut(Record(S, k))), S, left \ {k})
Init == /\ line \in Lines /\ P = Default /\ given = << >> /\ own = Default /\ locked = FALSE /\ ph = "line"
Parse == ph = "line" /\ ph' = "read" /\ P' = Assign(P, Read(line)) /\ UNCHANGED <<line, given, own, locked>>
Again == ph = "read" /\ ph' = "twice" /\ P' = Assign(P, Read(line)) /\ given' = << P >> /\ UNCHANGED <<line, own, locked>>
Copy == ph = "twice" /\ ph' = "sim" /\ own' = P /\ UNCHANGED <<line, P, given, locked>>
SetOwn == ph = "sim" /\ ph' = "set" /\ given' = Append(given, own) /\ own' = (IF locked /\ Rule # "nolock" THEN own ELSE Assign(own, [n |-> <<97>>, v |-> <<IF locked THEN 51 ELSE 52>>])) 
          /\ P' = (IF Rule = "shared" THEN own' ELSE P) /\ UNCHANGED <<line, locked>>
Process == ph = "set" /\ ~locked /\ locked' = TRUE /\ ph' = "sim" /\ UNCHANGED <<line, P, given, own>>
Next == Parse \/ Again \/ Copy \/ SetOwn \/ Process
Spec == Init /\ [][Next]_vars
(* Meaning: one parameter at most is changed, and exactly by the documented form of a line *)
NameAt(i, j) == SubSeq(Trim(line), i, j)
Says(k, v) == LET s == Trim(line) IN \E e \in 1..Len(s) : /\ s[e] = 61 /\ \A i \in 1..(e - 1) : s[i] # 61
                 /\ v = SubSeq(s, e + 1, Len(s)) /\ s[1] # 35
                 /\ \E c \in 0..(e - 1) : /\ (c > 0 => s[c] = 58 /\ \A i \in 1..(c - 1) : s[i] # 58)
                                          /\ k = SubSeq(s, c + 1, e - 1) /\ \A i \in 1..Len(s) : c = 0 => s[i] # 58   \* without a comment no colon at all
(* the number a text stands for, times 10^L *)
Ten[n \in 0..(2 * L)] == IF n = 0 THEN 1 ELSE 10 * Ten[n - 1]
Is(q, v) == LET b == Body(v)  w == Whole(b)  f == Frac(b)  a == Num(w) * Ten[L] + Num(f) * Ten[L - Len(f)]
                qd == IF q.d = << >> THEN 0 ELSE Num(q.d) * Ten[L + q.x - Len(q.d)] IN qd = a /\ q.neg = (Neg(v) /\ a # 0)
Clean(k, v) == CASE Kind(k) = "s" -> TRUE [] Kind(k) = "i" -> IsInt(v) [] OTHER -> IsFloat(v) /\ EPos(v) = 0
Meaning == ph = "read" => \A k \in Keys :
             IF \E v \in {SubSeq(Trim(line), i, Len(Trim(line))) : i \in 1..(Len(Trim(line)) + 1)} : Says(k, v)
             THEN LET v == CHOOSE v \in {SubSeq(Trim(line), i, Len(Trim(line))) : i \in 1..(Len(Trim(line)) + 1)} : Says(k, v) IN
                  Clean(k, v) => IF Kind(k) = "s" THEN P[k].d = v ELSE IF Kind(k) = "i" THEN P[k].d = SubSeq(Body(v), LeadZ(Body(v)) + 1, Len(Body(v))) /\ P[k].neg = (Neg(v) /\ P[k].d # << >>) ELSE Is(P[k], v)
             ELSE P[k] = Default[k]
OneAtMost == ph = "read" => \A j, k \in Keys : (P[j] # Default[j] /\ P[k] # Default[k]) => j = k
BlanksMeanNothing == ph = "read" => P = Assign(Default, Read(Trim(line)))
Repeatable == ph = "twice" => P = given[1]
Recorded == ph = "read" => ReadAll(Default, P, Keys) = P \/ \E k \in Keys : Kind(k) = "s" /\ Pos(P[k].d, 58) > 0
Locked == (ph = "set" /\ locked) => own = given[Len(given)]
Apart == (ph \in {"sim", "set"}) => P = given[1]
=============================================================================
