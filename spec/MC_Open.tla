------------------------------ MODULE MC_Open ------------------------------
(* C05: open simplification as a machine that is fed rounded points one by  *)
(* one, keeps a window of at most K pending corners, and emits the oldest   *)
(* corner when the window is full.                                          *)
EXTENDS Chain, Json
CONSTANTS W, H, MaxLen, K
VARIABLES path, out, win, p, q, base
vars == <<path, out, win, p, q, base>>
Pts == (0..W) \X (0..H)
Col(a, b, c) == (a[1] - c[1]) * (b[2] - a[2]) = (a[1] - b[1]) * (c[2] - a[2])

Start == [path |-> <<>>, out |-> <<>>, win |-> <<>>, p |-> <<>>, q |-> <<>>]
Step(st, r) ==
  IF st.path = <<>> THEN [st EXCEPT !.path = <<r>>, !.out = <<r>>]
  ELSE IF st.q = <<>> THEN [st EXCEPT !.path = Append(@, r), !.p = st.path[1], !.q = r]
  ELSE LET s1 == [st EXCEPT !.path = Append(@, r)] IN
    IF r = st.q THEN s1
    ELSE LET s2 == [s1 EXCEPT !.p = st.q, !.q = r] n == Len(st.win) IN
      IF Col(st.p, st.q, r) THEN s2
      ELSE LET back == n > 0 /\ st.win[n] = st.q
               w1 == IF back THEN SubSeq(st.win, 1, n - 1) ELSE st.win
               last == IF Len(w1) > 0 THEN w1[Len(w1)] ELSE st.out[Len(st.out)]
               corner == ~back \/ ~Col(last, st.q, r)
               full == Len(w1) = K
           IN IF ~corner THEN [s2 EXCEPT !.win = w1]
              ELSE [s2 EXCEPT !.out = IF full THEN Append(@, w1[1]) ELSE @,
                              !.win = Append(IF full THEN Tail(w1) ELSE w1, st.q)]
Result(st) == st.out \o st.win \o (IF st.q = <<>> THEN <<>> ELSE <<st.q>>)
RECURSIVE RunFrom(_, _, _)
RunFrom(st, ps, i) == IF i > Len(ps) THEN st ELSE RunFrom(Step(st, ps[i]), ps, i + 1)
Simplified(ps) == Result(RunFrom(Start, ps, 1))

St == [path |-> path, out |-> out, win |-> win, p |-> p, q |-> q]
Init == path = <<>> /\ out = <<>> /\ win = <<>> /\ p = <<>> /\ q = <<>> /\ base = 0
Feed(r) == LET n == Step(St, r) IN
  /\ Len(path) < MaxLen
  /\ path' = n.path /\ out' = n.out /\ win' = n.win /\ p' = n.p /\ q' = n.q
  /\ base' = base
Next == \E r \in Pts : Feed(r)
Spec == Init /\ [][Next]_vars

R == Result(St)
NetPreserved == ChainEq(R, path)
Ends == path # <<>> => R[1] = path[1] /\ R[Len(R)] = path[Len(path)]
Sub == IsSubseq(R, path)
ExactIfStraight == Straight(Dedup(path)) => Dedup(R) = Dedup(Exact(Dedup(path)))
Bounded == Len(win) <= K
Export == PrintT("@E" \o ToJson(<<path, R>>))
(* an excursion with fewer turning points than the window leaves no trace *)
Excs == UNION {[1..n -> Pts] : n \in 1..2}
NoTrace == (Len(path) \in 2..3 /\ Straight(path) /\ Dedup(path) = path) =>
  \A i \in 1..Len(path) : \A e \in Excs :
    LET w == <<path[i]>> \o e IN
    (Dedup(w) = w /\ Straight(w) /\ TurningPoints(path[i], e) < K) =>
      Dedup(Simplified(Insert(path, i, e))) = Exact(path)
=============================================================================
