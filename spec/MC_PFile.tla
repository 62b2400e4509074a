------------------------------ MODULE MC_PFile ------------------------------
(* C10: entities of parts in one file; reading by position or name seeks to *)
(* the sum of the sizes of the preceding entities.                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Names, MaxEnt
(* a part: number of points given, and whether the last repeats the first   *)
PartsDef == {<<<<1, FALSE>>>>, <<<<2, TRUE>>>>, <<<<4, TRUE>>, <<3, FALSE>>>>, <<<<2, FALSE>>, <<1, FALSE>>, <<5, TRUE>>>>}
VARIABLES phase, names, parts, rows, op
vars == <<phase, names, parts, rows, op>>
Kept(p) == IF p[2] THEN p[1] - 1 ELSE p[1]
RECURSIVE SumKept(_, _)
SumKept(ps, i) == IF i > Len(ps) THEN 0 ELSE Kept(ps[i]) + SumKept(ps, i + 1)
Init == phase = "w" /\ names = <<>> /\ parts = <<>> /\ rows = <<>> /\ op = <<"init">>
Write(n, ps) ==
  /\ phase = "w" /\ Len(names) < MaxEnt
  /\ \A i \in 1..Len(names) : names[i] # n
  /\ names' = Append(names, n) /\ parts' = Append(parts, ps)
  /\ rows' = rows \o [i \in 1..SumKept(ps, 1) |-> <<Len(names) + 1, i>>]
  /\ op' = <<"write", n, ps>> /\ UNCHANGED phase
(* an entity without points, with a position that is none, or under a name the
   format cannot hold, is refused and leaves no trace                        *)
Refuse == phase = "w" /\ op' = <<"refused">> /\ UNCHANGED <<phase, names, parts, rows>>
Close == phase = "w" /\ names # <<>> /\ phase' = "r" /\ op' = <<"close", Len(rows)>> /\ UNCHANGED <<names, parts, rows>>
RECURSIVE Offset(_)
Offset(i) == IF i <= 1 THEN 0 ELSE SumKept(parts[i - 1], 1) + Offset(i - 1)
RECURSIVE Cut(_, _, _)
Cut(ps, i, at) == IF i > Len(ps) THEN <<>>
  ELSE <<SubSeq(rows, at + 1, at + Kept(ps[i]))>> \o Cut(ps, i + 1, at + Kept(ps[i]))
Read(i) == phase = "r" /\ op' = <<"read", i - 1, Cut(parts[i], 1, Offset(i))>> /\ UNCHANGED <<phase, names, parts, rows>>
Get(i) == phase = "r" /\ op' = <<"get", names[i], Cut(parts[i], 1, Offset(i))>> /\ UNCHANGED <<phase, names, parts, rows>>
Next == Close \/ Refuse \/ (\E n \in Names, ps \in PartsDef : Write(n, ps)) \/ (\E i \in 1..Len(names) : Read(i) \/ Get(i))
Spec == Init /\ [][Next]_vars
View == <<phase, names, parts>>
RECURSIVE Flat(_, _)
Flat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Flat(q, i + 1)
NoTrace == [][op'[1] = "refused" => UNCHANGED <<phase, names, parts, rows>>]_vars
OwnPoints == [][op'[1] \in {"read", "get"} =>
  LET f == Flat(op'[3], 1) IN \E e \in 1..Len(names) :
     /\ f = [i \in 1..SumKept(parts[e], 1) |-> <<e, i>>]
     /\ Len(op'[3]) = Len(parts[e])
     /\ op'[2] \in IF op'[1] = "get" THEN {names[e]} ELSE {e - 1}]_vars
Export == PrintT("@E" \o ToJson([s |-> <<phase, names, parts>>, op |-> op', t |-> <<phase', names', parts'>>]))
=============================================================================
