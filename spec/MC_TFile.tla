------------------------------- MODULE MC_TFile -------------------------------
(* C23: reading a delimited file line by line.                              *)
EXTENDS Tables, Json
CONSTANTS MaxLines
VARIABLES lines, pos, head, rows, phase
vars == <<lines, pos, head, rows, phase>>
Names == <<"x", "y">>
Contents == {<<"blank", <<>>>>, <<"comment", <<>>>>, <<"row", <<"p", "q">>>>, <<"rowc", <<"r", "s">>>>}
Init == lines = <<>> /\ pos = 1 /\ head = <<>> /\ rows = <<>> /\ phase = "write"
HasHead == \E k \in 1..Len(lines) : ~Ignored(lines[k])
Put == /\ phase = "write" /\ Len(lines) < MaxLines
       /\ \E c \in Contents : lines' = Append(lines, IF Ignored(c) \/ HasHead THEN c ELSE <<c[1], Names>>)
       /\ UNCHANGED <<pos, head, rows, phase>>
Open == phase = "write" /\ phase' = "read" /\ UNCHANGED <<lines, pos, head, rows>>
Line == /\ phase = "read" /\ pos <= Len(lines) /\ pos' = pos + 1
        /\ LET x == lines[pos] IN
           IF Ignored(x) THEN UNCHANGED <<head, rows>>
           ELSE IF head = <<>> THEN head' = x[2] /\ UNCHANGED rows ELSE rows' = Append(rows, x[2]) /\ UNCHANGED head
        /\ UNCHANGED <<lines, phase>>
Finish == /\ phase = "read" /\ pos > Len(lines) /\ phase' = (IF head = <<>> THEN "error" ELSE "done")
          /\ UNCHANGED <<lines, pos, head, rows>>
Next == Put \/ Open \/ Line \/ Finish
Spec == Init /\ [][Next]_vars
Same == phase = "done" => [cols |-> head, rows |-> rows] = FileTable(lines)
NoHead == phase = "error" <=> (phase \in {"error", "done"} /\ ~HasHead)
Export == phase \in {"done", "error"} => PrintT("@E" \o ToJson(<<lines, phase, rows>>))
===============================================================================
