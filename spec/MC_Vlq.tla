------------------------------- MODULE MC_Vlq -------------------------------
(* A stream: numbers are written one after another, then read back.         *)
EXTENDS Vlq, Json
CONSTANTS Vals, MaxLen
VARIABLES wrote, bytes, pos, got, last
vars == <<wrote, bytes, pos, got, last>>
Init == wrote = <<>> /\ bytes = <<>> /\ pos = 1 /\ got = <<>> /\ last = <<"start">>
Write(v) == /\ pos = 1 /\ Len(wrote) < MaxLen
            /\ wrote' = Append(wrote, <<"u", v>>) /\ bytes' = bytes \o Encode(v)
            /\ last' = <<"write", v>> /\ UNCHANGED <<pos, got>>
WriteS(v) == /\ pos = 1 /\ Len(wrote) < MaxLen
             /\ wrote' = Append(wrote, <<"s", v>>) /\ bytes' = bytes \o EncodeS(v)
             /\ last' = <<"writes", v>> /\ UNCHANGED <<pos, got>>
ReadOne == /\ Len(got) < Len(wrote)
           /\ LET k == wrote[Len(got) + 1][1]
                  r == IF k = "u" THEN Read(bytes, pos) ELSE Read(bytes, pos + 1)
                  v == IF k = "s" /\ bytes[pos] # 0 THEN 0 - Value(r[1]) ELSE Value(r[1])
              IN got' = Append(got, <<k, v>>) /\ pos' = r[2] /\ last' = <<"read", k, v>>
           /\ UNCHANGED <<wrote, bytes>>
Next == ReadOne \/ \E v \in Vals : Write(v) \/ WriteS(v) \/ (v > 0 /\ WriteS(0 - v))
Spec == Init /\ [][Next]_vars
Lossless == \A i \in 1..Len(got) : got[i] = wrote[i]
Consumed == Len(got) = Len(wrote) => pos = Len(bytes) + 1
Shortest == \A v \in Vals : Minimal(Groups(v)) /\ Value(Groups(v)) = v
OneEnd == \A v \in Vals : LET e == Encode(v) IN
  \A i \in 1..Len(e) : (e[i] < Group) <=> (i = Len(e))
Export == Len(got) = Len(wrote) => PrintT("@E" \o ToJson([w |-> wrote, b |-> bytes]))
=============================================================================
