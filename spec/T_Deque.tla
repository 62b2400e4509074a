------------------------------ MODULE T_Deque ------------------------------
(* Judging recorded histories of real buffers (C04).                        *)
EXTENDS Judge
VARIABLES s, l, q
D == INSTANCE Deque WITH Cap <- 1, Vals <- {}, op <- <<>>

Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1 /\ q = <<>>

Expect(e) == CASE e.op = "push"  -> D!PushR(q, e.cap, e.x)
               [] e.op = "pop"   -> D!PopR(q)
               [] e.op = "peek"  -> D!PeekR(q)
               [] e.op = "shift" -> D!ShiftR(q)

Clauses(e, r) ==
  << <<"answer-of-" \o e.op, IF r[1].k = "exc" THEN Exc(e.res, r[1].v)
                             ELSE e.res = r[1]>>,
     <<"isempty", e.empty = D!Empty(r[2])>>,
     <<"isfull", e.full = D!Full(r[2], e.cap)>>,
     <<"text", e.text = D!Text(r[2])>> >>

JNext == /\ l <= Len(Sess)
         /\ l' = l + 1 /\ s' = s
         /\ LET e == Sess[l]  r == Expect(e)  c == Clauses(e, r) IN
              /\ RunClauses(s, l, c, r)
              /\ q' = r[2]
JSpec == JInit /\ [][JNext]_<<s, l, q>>
=============================================================================
