----------------------------- MODULE MC_ShpRead -----------------------------
(* C14: a reader with one file position per file, shared by random accesses  *)
(* and up to two iterations.  Positions are counted in records.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxOps
VARIABLES gone, cur, its, hist, ans
vars == <<gone, cur, its, hist, ans>>
(* gone: deleted records; cur: position of [s]hapes and [r]ecords;            *)
(* its: iterations <<file, next position>>; ans: the latest answer            *)
Init == gone \in SUBSET (1..N) /\ cur = [s |-> 0, r |-> 0] /\ its = <<>> /\ hist = <<>> /\ ans = <<>>
Kept == {i \in 1..N : i \notin gone}
Value(f, i) == IF f = "r" /\ i \in gone THEN 0 ELSE i
More == Len(hist) < MaxOps
Get == /\ More /\ UNCHANGED <<gone, its>>
       /\ \E f \in {"s", "r"}, i \in (0 - N)..(N - 1) :
            LET p == IF i < 0 THEN N + i + 1 ELSE i + 1 IN
            /\ cur' = [cur EXCEPT ![f] = p + 1] /\ ans' = <<Value(f, p)>> /\ hist' = Append(hist, <<"get", f, i>>)
All == /\ More /\ UNCHANGED <<gone, its>>
       /\ \E f \in {"s", "r"} :
            /\ cur' = [cur EXCEPT ![f] = N + 1]
            /\ ans' = SelectSeq([i \in 1..N |-> Value(f, i)], LAMBDA x : x # 0)
            /\ hist' = Append(hist, <<"all", f, 0>>)
Open == /\ More /\ Len(its) < 2 /\ UNCHANGED <<gone, cur>>
        /\ \E f \in {"s", "r"} : its' = Append(its, <<f, 1>>) /\ hist' = Append(hist, <<"iter", f, 0>>)
        /\ ans' = <<>>
(* the iteration goes to its own place first, and skips deleted records *)
RECURSIVE Skip(_, _)
Skip(f, p) == IF p > N \/ Value(f, p) # 0 THEN p ELSE Skip(f, p + 1)
Step == /\ More /\ UNCHANGED gone
        /\ \E k \in 1..Len(its) :
             LET f == its[k][1]  p == Skip(f, its[k][2]) IN
             /\ cur' = [cur EXCEPT ![f] = IF p > N THEN @ ELSE p + 1]
             /\ its' = [its EXCEPT ![k] = <<f, IF p > N THEN p ELSE p + 1>>]
             /\ ans' = IF p > N THEN <<>> ELSE <<Value(f, p)>>
             /\ hist' = Append(hist, <<"next", f, k>>)
Next == Get \/ All \/ Open \/ Step
Spec == Init /\ [][Next]_vars
(* the answer is determined by the question and by how often this iteration   *)
(* was asked, not by anything else                                            *)
Asked(k) == Cardinality({j \in 1..Len(hist) : hist[j][1] = "next" /\ hist[j][3] = k})
RECURSIVE Nth(_, _)
Nth(S, n) == LET m == CHOOSE x \in S : \A y \in S : x <= y IN IF n = 1 THEN m ELSE Nth(S \ {m}, n - 1)
Right == hist # <<>> => LET h == hist[Len(hist)]  S == IF h[2] = "s" THEN 1..N ELSE Kept IN
  CASE h[1] = "get" -> ans = <<Value(h[2], IF h[3] < 0 THEN N + h[3] + 1 ELSE h[3] + 1)>>
    [] h[1] = "all" -> Len(ans) = Cardinality(S) /\ \A i \in 1..Len(ans) : ans[i] = Nth(S, i)
    [] h[1] = "iter" -> TRUE
    [] h[1] = "next" -> ans = IF Asked(h[3]) > Cardinality(S) THEN <<>> ELSE <<Nth(S, Asked(h[3]))>>
Export == Len(hist) = MaxOps => PrintT("@E" \o ToJson(<<gone, hist>>))
=============================================================================
