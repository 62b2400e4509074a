------------------------------- MODULE MC_Meter -------------------------------
(* C28: an iteration observed by a meter.  The consumer asks for an item,   *)
(* the source takes some time (or fails, or ends), the consumer works.      *)
EXTENDS Meter, Json
CONSTANTS MaxItems, Dts, Intervals, Iters, Totals
VARIABLES cfg, now, n, lastn, lastt, busy, term, end, runlog, draws, start
vars == <<cfg, now, n, lastn, lastt, busy, term, end, runlog, draws, start>>
Text(k, e) == CHOOSE t \in Meter(k, cfg.total, e) : TRUE
Draw(t, k, e) == Write(Write(t, <<"\r">>, 1), Text(k, e) \o Rep(" ", IF Len(Seen(t.line)) > Len(Text(k, e)) THEN Len(Seen(t.line)) - Len(Text(k, e)) ELSE 0), 1)
Init == /\ cfg \in [total : Totals, interval : Intervals, iters : Iters, leave : BOOLEAN]
        /\ now = 0 /\ n = 0 /\ lastn = 0 /\ lastt = 0 /\ busy = FALSE /\ end = "no" /\ runlog = <<>> /\ start = 0
        /\ term = Fresh /\ draws = <<>>
(* first request: the meter appears *)
Begin == /\ draws = <<>> /\ end = "no" /\ term' = Draw(term, 0, 0) /\ draws' = <<<<0, now>>>> /\ lastt' = now
         /\ start' = now /\ UNCHANGED <<cfg, now, n, lastn, busy, end, runlog>>
Deliver(d) == /\ draws # <<>> /\ ~busy /\ end = "no" /\ n < MaxItems
              /\ busy' = TRUE /\ now' = now + d /\ runlog' = Append(runlog, <<"item", d>>)
              /\ UNCHANGED <<cfg, n, lastn, lastt, term, end, draws, start>>
(* the item is processed and the next one requested *)
Complete(d) ==
  LET k == n + 1  t == now + d  due == k - lastn >= cfg.iters /\ t - lastt >= cfg.interval IN
  /\ busy /\ busy' = FALSE /\ n' = k /\ now' = t /\ runlog' = Append(runlog, <<"body", d>>)
  /\ IF due THEN term' = Draw(term, k, t - start) /\ lastn' = k /\ lastt' = t /\ draws' = Append(draws, <<k, t>>)
     ELSE UNCHANGED <<term, lastn, lastt, draws>>
  /\ UNCHANGED <<cfg, end, start>>
Finish(d) ==
  /\ draws # <<>> /\ ~busy /\ end = "no" /\ end' = "end" /\ now' = now + d /\ runlog' = Append(runlog, <<"end", d>>)
  /\ LET t == IF lastn < n THEN Draw(term, n, now' - start) ELSE term IN
     term' = IF cfg.leave THEN Put(t, "\n")
             ELSE Write(t, <<"\r">> \o Rep(" ", Len(t.line)) \o <<"\r">>, 1)
  /\ lastn' = n /\ UNCHANGED <<cfg, n, lastt, busy, draws, start>>
Fail == /\ draws # <<>> /\ ~busy /\ end = "no" /\ end' = "fail" /\ runlog' = Append(runlog, <<"fail", 0>>)
        /\ UNCHANGED <<cfg, now, n, lastn, lastt, busy, term, draws, start>>
Abandon == /\ busy /\ end = "no" /\ end' = "left" /\ busy' = FALSE /\ runlog' = Append(runlog, <<"left", 0>>)
           /\ UNCHANGED <<cfg, now, n, lastn, lastt, term, draws, start>>
Next == Begin \/ Fail \/ Abandon \/ \E d \in Dts : Deliver(d) \/ Complete(d) \/ Finish(d)
Spec == Init /\ [][Next]_vars
Throttled == \A i \in 3..Len(draws) : draws[i][2] - draws[i - 1][2] >= cfg.interval /\ draws[i][1] - draws[i - 1][1] >= cfg.iters
ShownIsDrawn == (draws # <<>> /\ end # "end") =>
  Seen(term.line) \in {Seen(x) : x \in Meter(draws[Len(draws)][1], cfg.total, draws[Len(draws)][2] - start)}
FinalShown == end = "end" => IF cfg.leave THEN /\ term.line = <<>>
                                               /\ \E e \in 0..now : Seen(term.past[1]) \in Meter(n, cfg.total, e)
                                          ELSE Seen(term.line) = <<>> /\ term.cur = 1 /\ term.past = <<>>
Quiet == [][ (n' = n /\ end' = end /\ draws # <<>>) => term' = term ]_vars
Export == end # "no" => PrintT("@E" \o ToJson(<<cfg, runlog>>))
=============================================================================
