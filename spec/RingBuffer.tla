----------------------------- MODULE RingBuffer -----------------------------
(* The ring of n slots with start and end counters taken modulo 2n, as the  *)
(* code implements it, refining Deque.  Its states distinguish where in the *)
(* ring the contents lie, so its transitions are the tests to replay.       *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Cap, Vals
VARIABLES buf, st, en, op

vars == <<buf, st, en, op>>
Inc(i) == (i + 1) % (2 * Cap)
Dec(i) == (i - 1 + 2 * Cap) % (2 * Cap)
Slot(i) == i % Cap
IsEmpty == st = en
IsFull  == (en - st + 2 * Cap) % (2 * Cap) = Cap
Count   == (en - st + 2 * Cap) % (2 * Cap)
Contents == [i \in 1..Count |-> buf[Slot(st + i - 1)]]

D == INSTANCE Deque WITH q <- Contents

Init == buf = [i \in 0..Cap-1 |-> 0] /\ st = 0 /\ en = 0 /\ op = <<"new">>

Push(x) == /\ UNCHANGED st
           /\ IF IsFull THEN op' = <<"push", x, D!Refused>> /\ UNCHANGED <<buf, en>>
              ELSE /\ op' = <<"push", x, D!Done("none")>>
                   /\ buf' = [buf EXCEPT ![Slot(en)] = x] /\ en' = Inc(en)
Pop == /\ UNCHANGED <<buf, st>>
       /\ IF IsEmpty THEN op' = <<"pop", D!Refused>> /\ UNCHANGED en
          ELSE en' = Dec(en) /\ op' = <<"pop", D!Done(buf[Slot(Dec(en))])>>
Peek == /\ UNCHANGED <<buf, st, en>>
        /\ IF IsEmpty THEN op' = <<"peek", D!Refused>>
           ELSE op' = <<"peek", D!Done(buf[Slot(Dec(en))])>>
Shift == /\ UNCHANGED <<buf, en>>
         /\ IF IsEmpty THEN op' = <<"shift", D!Refused>> /\ UNCHANGED st
            ELSE st' = Inc(st) /\ op' = <<"shift", D!Done(buf[Slot(st)])>>

Next == (\E x \in Vals : Push(x)) \/ Pop \/ Peek \/ Shift
Spec == Init /\ [][Next]_vars

Refines == D!Spec
Bounded == D!Bounded
OnlyEnds == D!OnlyEnds
NoOp == <<buf, st, en>>        \* VIEW: the observation is not part of the state

State == [c |-> Contents, s |-> st, b |-> buf]
StateP == [c |-> Contents', s |-> st', b |-> buf']
Export == PrintT("@E" \o ToJson([s |-> State, op |-> op', t |-> StateP]))
=============================================================================
