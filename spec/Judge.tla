------------------------------- MODULE Judge -------------------------------
(* Reading recorded sessions and reporting verdicts.  A trace file has one  *)
(* session per line, each a JSON array of events; every session is an       *)
(* independent initial state, so TLC judges sessions in parallel.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VT_TRACE)

(* One verdict line per violated clause; the harness maps (s, l) back.      *)
Report(s, l, clause) == PrintT("@F" \o ToJson(<<s, l, clause>>))
ReportX(s, l, clause, x) == PrintT("@F" \o ToJson(<<s, l, clause, x>>))
Answer(s, l, x) == PrintT("@R" \o ToJson(<<s, l, x>>))

(* Evaluate a list of <<clause name, holds>> pairs, reporting every failure. *)
RunClauses(s, l, c, x) ==
  \A i \in 1..Len(c) : IF c[i][2] THEN TRUE ELSE ReportX(s, l, c[i][1], x)

(* An observation is a record [k |-> "ok" | "exc" | "hang", v |-> ...].     *)
Ok(r) == r.k = "ok"
Exc(r, name) == r.k = "exc" /\ r.v = name

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
