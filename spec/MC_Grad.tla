------------------------------- MODULE MC_Grad -------------------------------
(* C25: a gradient takes its stops in any order, keeps them sorted, and     *)
(* answers by interpolation.  Positions 0..P stand for [0, 1]; one channel. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS P, MaxStops, Colours
VARIABLES listed, sorted, asked
vars == <<listed, sorted, asked>>
RECURSIVE Insert(_, _)
Insert(q, e) == IF q = <<>> THEN <<e>> ELSE IF e[1] < q[1][1] THEN <<e>> \o q ELSE <<q[1]>> \o Insert(Tail(q), e)
Full(q) == LET a == IF q[1][1] > 0 THEN <<<<0, q[1][2]>>>> \o q ELSE q IN
           IF a[Len(a)][1] < P THEN Append(a, <<P, a[Len(a)][2]>>) ELSE a
(* the interpolated channel as a fraction *)
Get(q, x) == LET f == Full(q)
                 i == CHOOSE i \in 1..Len(f) : f[i][1] >= x /\ \A j \in 1..(i - 1) : f[j][1] < x
             IN IF f[i][1] = x THEN <<f[i][2], 1>>
                ELSE LET a == f[i - 1] b == f[i] IN <<a[2] * (b[1] - x) + b[2] * (x - a[1]), b[1] - a[1]>>
Init == listed = <<>> /\ sorted = <<>> /\ asked = <<>>
List(x, c) == /\ asked = <<>> /\ Len(listed) < MaxStops /\ \A i \in 1..Len(listed) : listed[i][1] # x
              /\ listed' = Append(listed, <<x, c>>) /\ sorted' = Insert(sorted, <<x, c>>) /\ UNCHANGED asked
Ask == asked = <<>> /\ listed # <<>> /\ asked' = [x \in 1..(P + 1) |-> Get(sorted, x - 1)] /\ UNCHANGED <<listed, sorted>>
Next == Ask \/ \E x \in 0..P, c \in Colours : List(x, c)
Spec == Init /\ [][Next]_vars
At(x) == asked[x + 1]
StopsExact == asked # <<>> => \A i \in 1..Len(listed) : At(listed[i][1]) = <<listed[i][2], 1>>
First == sorted[1]
LastS == sorted[Len(sorted)]
Flat == asked # <<>> => \A x \in 0..P :
  /\ x <= First[1] => At(x)[1] = First[2] * At(x)[2]
  /\ x >= LastS[1] => At(x)[1] = LastS[2] * At(x)[2]
(* between stops: within their colours, and equal steps *)
Linear == asked # <<>> => \A x \in 1..(P - 1) :
  (\A i \in 1..Len(sorted) : sorted[i][1] # x) =>
     LET a == At(x - 1) b == At(x) c == At(x + 1) IN
     (b[1] * a[2] - a[1] * b[2]) * c[2] = (c[1] * b[2] - b[1] * c[2]) * a[2]
OrderFree == asked # <<>> => \A i \in 1..(Len(sorted) - 1) : sorted[i][1] < sorted[i + 1][1]
Export == asked # <<>> => PrintT("@E" \o ToJson(<<listed, asked>>))
=============================================================================
