------------------------------ MODULE BoxRules ------------------------------
(* What the sides of the box mean, per direction.  Sides: "o" open, "p" periodic, "m" mirror, "w" wall.            *)
(* Codes: 0 as it is, 1 one box up, 2 one box down, 3 mirrored at the lower side, 4 mirrored at the upper side.    *)
EXTENDS Integers
Turns(side) == side \in {"m", "w"}
(* what becomes of a particle that is beyond the lower (w = 1) or the upper (w = 2) side, or within (w = 0) *)
MovedBy(lhs, rhs, w) == IF w = 1 /\ lhs = "p" THEN 1 ELSE IF w = 1 /\ Turns(lhs) THEN 3
                        ELSE IF w = 2 /\ rhs = "p" THEN 2 ELSE IF w = 2 /\ Turns(rhs) THEN 4 ELSE 0
Turned(c) == c \in {3, 4}
(* the copies that a direction can have; and must have, for a particle lo and hi away from the sides reaching rg *)
Possible(lhs, rhs) == {0} \cup (IF lhs = "p" THEN {1} ELSE {}) \cup (IF rhs = "p" THEN {2} ELSE {})
                          \cup (IF lhs = "m" THEN {3} ELSE {}) \cup (IF rhs = "m" THEN {4} ELSE {})
Needed(lhs, rhs, lo, hi, rg) == Possible(lhs, rhs) \ ((IF lo < rg THEN {} ELSE {1, 3}) \cup (IF hi < rg THEN {} ELSE {2, 4}))
Place(c, x, bot, top) == CASE c = 0 -> x [] c = 1 -> x + (top - bot) [] c = 2 -> x - (top - bot) [] c = 3 -> 2 * bot - x [] c = 4 -> 2 * top - x
=============================================================================
