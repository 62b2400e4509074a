------------------------------- MODULE T_Meter -------------------------------
(* Judging recorded runs of the progress meter, its formats and its printer. *)
EXTENDS Judge, Meter
VARIABLES s, l, st
Sess == Trace[s]
Idle == [term |-> Fresh, n |-> 0, lastn |-> 0, lastt |-> 0, start |-> 0 - 1, busy |-> FALSE, over |-> FALSE, asked |-> 0]
JInit == s \in 1..Len(Trace) /\ l = 1 /\ st = Idle
C == Sess[1]            \* a run starts with its configuration
With(t) == C.desc \o t
Expect(k, e) == {Seen(With(t)) : t \in Meter(k, C.total, e)}
After(e) == Write(st.term, e.out, 1)
(* the meter appears with the first request at the latest *)
Begun == st.start >= 0
Appear(e) == IF Begun THEN st ELSE
  IF e.out = <<>> THEN st ELSE [st EXCEPT !.start = e.t, !.lastt = e.t]
Due(e) == st.busy /\ st.n + 1 - st.lastn >= C.iters /\ e.t - st.lastt >= C.interval
(* the consumer asks for the next item: the previous one is complete *)
Ask(e) ==
  LET k == IF st.busy THEN st.n + 1 ELSE st.n  T == After(e) IN
  << <<"asks-the-source-once-per-item", e.i = st.asked + 1 /\ ~st.over>>,
     <<"meter-appears", ~Begun => Seen(T.line) \in Expect(0, 0) /\ T.past = <<>>>>,
     <<"redrawn-when-due", (Begun /\ Due(e)) => (Seen(T.line) \in Expect(k, e.t - st.start) /\ T.past = <<>>)>>,
     <<"quiet-when-not-due", (Begun /\ ~Due(e)) => e.out = <<>>>> >>
AskSt(e) == [Appear(e) EXCEPT !.term = After(e), !.n = IF st.busy THEN @ + 1 ELSE @, !.busy = FALSE, !.asked = @ + 1,
              !.lastn = IF Begun /\ Due(e) THEN st.n + 1 ELSE @, !.lastt = IF ~Begun \/ Due(e) THEN e.t ELSE @]
Got(e) == << <<"yields-the-very-item", e.same /\ e.i = st.asked /\ ~st.busy>>, <<"quiet-when-not-due", e.out = <<>>>> >>
GotSt(e) == [st EXCEPT !.busy = TRUE, !.term = After(e)]
Made(e) == << <<"meter-appears", e.out = <<>> \/ Seen(After(e).line) \in Expect(0, 0)>> >>
MadeSt(e) == [Appear(e) EXCEPT !.term = After(e)]
End(e) ==
  LET T == After(e) IN
  << <<"same-end", e.how = e.want>>,
     <<"writes-to-its-file-only", e.other = 0>>,
     <<"final-display", (e.want = "end" /\ C.leave) =>
          Len(T.past) = 1 /\ T.line = <<>> /\ \E u \in {st.lastt, e.t} : Seen(T.past[1]) \in Expect(st.n, u - st.start)
          /\ (st.lastn < st.n => u = e.t)>>,
     <<"no-residue", (e.want = "end" /\ ~C.leave) => T.past = <<>> /\ Seen(T.line) = <<>> /\ T.cur = 1>>,
     <<"quiet-when-not-due", e.want # "end" => e.out = <<>>>> >>
EndSt(e) == [st EXCEPT !.term = After(e), !.over = TRUE]
(* formats and printer on their own *)
Interv(e) == << <<"interval-text", Ok(e.res) /\ e.res.v = Interval(e.secs)>> >>
Format(e) == << <<"meter-text", Ok(e.res) /\ e.res.v \in MeterAt(e.n, e.total, e.e, e.hz)>> >>
Status(e) == LET T == After(e) IN
  << <<"status-accepted", Ok(e.res)>>,
     <<"starts-at-line-beginning", e.out # <<>> /\ e.out[1] = "\r">>,
     <<"covers-the-previous-one", Seen(T.line) = Seen(e.text) /\ T.past = <<>>>> >>
Clauses(e) == CASE e.op = "ask" -> Ask(e) [] e.op = "got" -> Got(e) [] e.op = "end" -> End(e)
                [] e.op = "made" -> Made(e) [] e.op = "interval" -> Interv(e)
                [] e.op = "format" -> Format(e)
                [] e.op = "trange" -> << <<"counts-like-a-range", e.ok /\ e.got = e.want /\ e.out = e.out2>> >>
                [] e.op = "status" -> Status(e)
St(e) == CASE e.op = "ask" -> AskSt(e) [] e.op = "got" -> GotSt(e) [] e.op = "end" -> EndSt(e) [] e.op = "made" -> MadeSt(e)
           [] e.op = "status" -> [st EXCEPT !.term = After(e)] [] OTHER -> st
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ st' = TLCEval(St(Sess[l]))
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l, st>>
=============================================================================
