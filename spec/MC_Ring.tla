------------------------------ MODULE MC_Ring ------------------------------
(* C06: ring simplification.  The ring is cut at its first point; the first *)
(* K corners are held back so that a slit around the cut can be cancelled;  *)
(* later corners are emitted as the window overflows.                       *)
EXTENDS Chain, Json
CONSTANTS W, H, MaxLen, K
VARIABLES path, st
vars == <<path, st>>
Pts == (0..W) \X (0..H)
Col(a, b, c) == (a[1] - c[1]) * (b[2] - a[2]) = (a[1] - b[1]) * (c[2] - a[2])

Start(f) == [out |-> <<>>, head |-> <<>>, win |-> <<>>, p |-> f, q |-> f, o |-> f]
Flush(s, c) == IF Len(s.head) = K THEN [s EXCEPT !.out = Append(@, c), !.o = c]
               ELSE [s EXCEPT !.head = Append(@, c), !.o = c]
Step(s, r) ==
  IF r = s.q THEN s
  ELSE LET s2 == [s EXCEPT !.p = s.q, !.q = r] n == Len(s.win) IN
    IF Col(s.p, s.q, r) THEN s2
    ELSE LET back == n > 0 /\ s.win[n] = s.q
             w1 == IF back THEN SubSeq(s.win, 1, n - 1) ELSE s.win
             last == IF Len(w1) > 0 THEN w1[Len(w1)] ELSE s.o
             corner == ~back \/ ~Col(last, s.q, r)
         IN IF ~corner THEN [s2 EXCEPT !.win = w1]
            ELSE IF Len(w1) = K THEN [Flush(s2, w1[1]) EXCEPT !.win = Append(Tail(w1), s.q)]
            ELSE [s2 EXCEPT !.win = Append(w1, s.q)]
(* left: the corners before t; head and whatever of the window is still first  *)
(* in the ring: the corners after t.                                           *)
RECURSIVE Cut(_, _, _)
Cut(win, t, head) ==
  LET n == Len(win) IN
  IF Len(head) > 0 /\ head[1] = t THEN Cut(win, t, Tail(head))
  ELSE IF n > 0 /\ win[n] = t THEN Cut(SubSeq(win, 1, n - 1), t, head)
  ELSE IF n > 0 /\ Len(head) > 0 /\ win[n] = head[1]
  THEN Cut(SubSeq(win, 1, n - 1), head[1], Tail(head))
  ELSE win \o <<t>> \o head
(* nothing was emitted: the corners are all in one sequence                    *)
RECURSIVE Whole(_, _)
Whole(c, t) ==
  LET n == Len(c) IN
  IF n > 0 /\ c[1] = t THEN Whole(Tail(c), t)
  ELSE IF n > 0 /\ c[n] = t THEN Whole(SubSeq(c, 1, n - 1), t)
  ELSE IF n > 1 /\ c[1] = c[n] THEN Whole(SubSeq(c, 2, n - 1), c[n])
  ELSE <<t>> \o c
Finish(s, f) == LET e == Step(s, f) IN IF Len(e.head) < K THEN Whole(e.head \o e.win, f) ELSE e.out \o Cut(e.win, f, e.head)

Init == path = <<>> /\ st = Start(<<0, 0>>)
Feed(r) == /\ Len(path) < MaxLen /\ path' = Append(path, r)
           /\ st' = IF path = <<>> THEN Start(r) ELSE Step(st, r)
Next == \E r \in Pts : Feed(r)
Spec == Init /\ [][Next]_vars

R == IF path = <<>> THEN <<>> ELSE Finish(st, path[1])
NetPreserved == ChainEq(Close(R), Close(path))
AreaKept == Area2(R) = Area2(path)
Vertices == \A i \in 1..Len(R) : \E j \in 1..Len(path) : R[i] = path[j]
ExactIfStraight == LET d == RingDedup(path) IN
  RingStraight(d) => RingDedup(R) \in RingExact(d)
Export == PrintT("@E" \o ToJson(<<path, R>>))
=============================================================================
