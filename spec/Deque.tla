------------------------------- MODULE Deque -------------------------------
(* C04: what a user relies on: a bounded double-ended queue.                *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Cap, Vals
VARIABLES q,   \* contents, oldest first
          op   \* last call and its answer (observation only)

Refused == [k |-> "exc", v |-> "AssertionError"]
Done(v) == [k |-> "ok", v |-> v]

Full(s, cap)  == Len(s) = cap
Empty(s)      == Len(s) = 0

(* Semantics of every call as <<answer, contents afterwards>>.              *)
PushR(s, cap, x)  == IF Full(s, cap) THEN <<Refused, s>> ELSE <<Done("none"), Append(s, x)>>
PopR(s)           == IF Empty(s) THEN <<Refused, s>>
                     ELSE <<Done(s[Len(s)]), SubSeq(s, 1, Len(s) - 1)>>
PeekR(s)          == IF Empty(s) THEN <<Refused, s>> ELSE <<Done(s[Len(s)]), s>>
ShiftR(s)         == IF Empty(s) THEN <<Refused, s>> ELSE <<Done(Head(s)), Tail(s)>>

RECURSIVE Words(_)
Words(s) == IF Len(s) = 0 THEN ""
            ELSE IF Len(s) = 1 THEN ToString(s[1])
            ELSE ToString(s[1]) \o " " \o Words(Tail(s))
Text(s) == "<" \o Words(s) \o ">"

Init == q = <<>> /\ op = <<"new">>
Push(x) == LET r == PushR(q, Cap, x) IN op' = <<"push", x, r[1]>> /\ q' = r[2]
Pop     == LET r == PopR(q)   IN op' = <<"pop", r[1]>>   /\ q' = r[2]
Peek    == LET r == PeekR(q)  IN op' = <<"peek", r[1]>>  /\ q' = r[2]
Shift   == LET r == ShiftR(q) IN op' = <<"shift", r[1]>> /\ q' = r[2]

Next == (\E x \in Vals : Push(x)) \/ Pop \/ Peek \/ Shift
Spec == Init /\ [][Next]_<<q, op>>

Bounded == Len(q) <= Cap
(* nothing lost, duplicated or reordered *)
OnlyEnds == [][ \/ q' = q
                \/ \E x \in Vals : q' = Append(q, x)
                \/ Len(q) > 0 /\ (q' = Tail(q) \/ q' = SubSeq(q, 1, Len(q) - 1)) ]_q
RefusalIsHarmless == [][op'[Len(op')] = Refused => q' = q]_<<q, op>>
=============================================================================
