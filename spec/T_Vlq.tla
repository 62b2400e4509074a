------------------------------- MODULE T_Vlq -------------------------------
(* Judging recorded streams.  Numbers appear as their binary digits cut in  *)
(* groups of seven (by the harness) and a sign.                             *)
EXTENDS Judge, Vlq
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1
One(n) == (IF n.form = "s" THEN <<IF n.neg THEN Sign ELSE 0>> ELSE <<>>) \o Flagged(n.g)
RECURSIVE All(_, _)
All(ns, i) == IF i > Len(ns) THEN <<>> ELSE One(ns[i]) \o All(ns, i + 1)
RECURSIVE Ends(_, _, _)
Ends(ns, i, at) == IF i > Len(ns) THEN <<>>
  ELSE <<at + Len(One(ns[i]))>> \o Ends(ns, i + 1, at + Len(One(ns[i])))
Stream(e) ==
  << <<"groups-well-formed", \A i \in 1..Len(e.nums) : Minimal(e.nums[i].g)>>,
     <<"bytes-written", Ok(e.bytes) /\ e.bytes.v = All(e.nums, 1)>>,
     <<"numbers-read", Ok(e.read) /\ e.read.v = e.nums>>,
     <<"exactly-consumed", Ok(e.read) => e.ends = Ends(e.nums, 1, 0)>> >>
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Stream(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
