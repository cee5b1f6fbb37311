------------------------------ MODULE Browse ------------------------------
(* Browsing through the snapshots of several simulations with a memory that does not hold them all.  Snapshots are  *)
(* 1..N; Lists[i] those of simulation i; sizes are chosen.  Rule selects defects that TLC has to refute.            *)
EXTENDS BrowseRules, TLC
CONSTANTS Small, Max, Rule, LiveSize, Sizes, Late
VARIABLES size, cs, cur, alloc, stamp, now, live, got, last
vars == <<size, cs, cur, alloc, stamp, now, live, got, last>>
Lists == IF Small THEN << <<1, 2, 3>>, <<4>> >> ELSE << <<1, 2, 3>>, <<4, 5>> >>
All == IF Small THEN 1..4 ELSE 1..5
Live == IF live THEN LiveSize ELSE 0
Init == /\ size \in [All -> Sizes] /\ cs = 1 /\ cur = <<1, 4>> /\ alloc = {} /\ stamp = [s \in All |-> 0] /\ now = 0 /\ live = FALSE /\ got = 0 /\ last = [A |-> {}, stamp |-> [s \in All |-> 0], s |-> 0, want |-> 0, from |-> <<1, 4>>, live |-> 0]
(* the cache: give up the least recently used until there is room *)
RECURSIVE Room(_, _)
Room(A, s) == IF A = {} \/ (Sum(size, A) + size[s] + (IF Rule = "blind" THEN 0 ELSE Live) <= Max /\ ~(Rule = "clear" /\ A # {})) \/ Rule = "nobound" THEN A
              ELSE LET v == CHOOSE v \in A : \A w \in A : IF Rule = "recent" THEN stamp[v] >= stamp[w] ELSE stamp[v] <= stamp[w] IN Room(A \ {v}, s)
Load(s, want) == /\ last' = [A |-> alloc, stamp |-> stamp, s |-> s, want |-> want, from |-> cur, live |-> Live]
                 /\ IF s = 0 \/ (s \notin alloc /\ ~Fits(size, s, IF Rule = "blind" THEN 0 ELSE Live, Max)) THEN got' = 0 /\ UNCHANGED <<alloc, stamp>>
                    ELSE got' = s /\ IF s \in alloc THEN UNCHANGED <<alloc, stamp>> ELSE alloc' = (Room(alloc, s) \cup {s}) /\ stamp' = [stamp EXCEPT ![s] = now]
To(s) == Load(s, s) /\ cur' = (IF got' = 0 THEN cur ELSE IF Rule = "shared" THEN [i \in 1..2 |-> IF Where(Lists[i], s) > 0 \/ Len(Lists[i]) > 2 THEN s ELSE cur[i]] ELSE [cur EXCEPT ![cs] = s]) /\ UNCHANGED <<size, cs, now, live>>
Jump == \E n \in -4..3 : To(Nth(Lists[cs], n))
GoNext == To(Following(Lists[cs], cur[cs]))
GoBack == To(IF Rule = "wrap" THEN Nth(Lists[cs], Where(Lists[cs], cur[cs]) - 2) ELSE Preceding(Lists[cs], cur[cs]))
Current == Load(cur[cs], cur[cs]) /\ UNCHANGED <<size, cs, cur, now, live>>
Look == \E i \in 1..2 : \E n \in 0..3 : Load(Nth(Lists[i], n), Nth(Lists[i], n)) /\ UNCHANGED <<size, cs, cur, now, live>>
Use == got \in alloc /\ stamp' = [stamp EXCEPT ![got] = now] /\ last' = [last EXCEPT !.s = 0] /\ UNCHANGED <<size, cs, cur, alloc, now, live, got>>
Tick == now < Late /\ now' = now + 1 /\ last' = [last EXCEPT !.s = 0] /\ UNCHANGED <<size, cs, cur, alloc, stamp, live, got>>
Select == \E k \in 1..2 : cs' = k /\ last' = [last EXCEPT !.s = 0] /\ UNCHANGED <<size, cur, alloc, stamp, now, live, got>>
MakeLive == ~live /\ live' = TRUE /\ last' = [last EXCEPT !.s = 0] /\ UNCHANGED <<size, cs, cur, alloc, stamp, now, got>>
Next == Jump \/ GoNext \/ GoBack \/ Current \/ Look \/ Use \/ Tick \/ Select \/ MakeLive
Spec == Init /\ [][Next]_vars
Right == (last.s # 0 /\ last.s \notin last.A) => IF Fits(size, last.s, last.live, Max) THEN got = last.s /\ Evicts(size, last.stamp, last.A, alloc, last.s, last.live, Max) ELSE got = 0 /\ alloc = last.A
Within == ~live => Sum(size, alloc) <= Max
Own == \A i \in 1..2 : Where(Lists[i], cur[i]) > 0
Loaded == (last.s # 0 /\ got # 0) => got \in alloc
Ends == [][\A i \in 1..2 : cur'[i] # cur[i] => (i = cs /\ cur'[i] = got')]_vars
NoWrap == [][(GoBack /\ cur' # cur) => Where(Lists[cs], cur'[cs]) = Where(Lists[cs], cur[cs]) - 1]_vars
===========================================================================
