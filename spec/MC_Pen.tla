-------------------------------- MODULE MC_Pen --------------------------------
(* C20: emitting only the ink changes that are needed.  A canvas remembers   *)
(* the ink its program has set; the ink painted must be the ink requested.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Inks, MaxOps, MaxCanvases
VARIABLES cv, hist
vars == <<cv, hist>>
None == 0                 \* "no ink given"; inks are 1, 2, ...
Blank(bg) == [known |-> bg, prog |-> <<>>, want |-> <<>>, ink |-> None, bg |-> bg]
Emit(c, t) == [c EXCEPT !.prog = @ \o t]
SetInk(c, i) == IF c.known = i THEN c ELSE [Emit(c, <<<<"ink", i>>>>) EXCEPT !.known = i]
Paint(c, k) == Emit(c, <<<<k, 0>>>>)
Fill(c, f, both) ==
  IF f = None THEN c ELSE
  IF both THEN [Emit(Paint(SetInk(Emit(c, <<<<"gs", 0>>>>), f), "fill"), <<<<"gr", 0>>>>) EXCEPT !.known = c.known]
  ELSE Paint(SetInk(c, f), "fill")
Wants(c, f, t) == [c EXCEPT !.want = @ \o (IF f = None THEN <<>> ELSE <<<<"fill", f>>>>) \o (IF t = None THEN <<>> ELSE <<<<"stroke", t>>>>),
                           !.ink = IF t # None THEN t ELSE IF f # None THEN f ELSE @]
Polygon(c, f, t) == Wants(LET d == Fill(c, f, t # None) IN IF t = None THEN d ELSE Paint(SetInk(d, t), "stroke"), f, t)
Polyline(c, t) == LET d == IF t = None THEN c ELSE SetInk(c, t) IN
                  [Paint(d, "stroke") EXCEPT !.want = Append(@, <<"stroke", IF t = None THEN c.ink ELSE t>>), !.ink = IF t = None THEN @ ELSE t]
(* a polygon with something that is no ink for the stroke (after a fill) or   *)
(* for the fill: what was emitted until then is taken back with the belief    *)
Partly(c, f) == IF f = None THEN Emit(c, <<<<"gs", 0>>>>)
                ELSE [Emit(Paint(SetInk(Emit(c, <<<<"gs", 0>>>>), f), "fill"), <<<<"gr", 0>>>>) EXCEPT !.known = c.known]
Undone(c, d) == [d EXCEPT !.prog = SubSeq(@, 1, Len(c.prog)), !.known = c.known]
Refused(c, f) == Undone(c, Partly(c, f))
Init == \E bg \in {None} \cup Inks : cv = <<Blank(bg)>> /\ hist = <<<<"new", bg, 0, 0>>>>
Do(i, c, h) == cv' = [cv EXCEPT ![i] = c] /\ hist' = Append(hist, h)
Next == /\ Len(hist) <= MaxOps
        /\ \E i \in 1..Len(cv) :
           \/ \E k \in Inks : Do(i, [SetInk(cv[i], k) EXCEPT !.ink = k], <<"ink", i, k, 0>>)
           \/ \E f, t \in {None} \cup Inks : Do(i, Polygon(cv[i], f, t), <<"polygon", i, f, t>>)
           \/ \E t \in {None} \cup Inks : Do(i, Polyline(cv[i], t), <<"polyline", i, 0, t>>)
           \/ \E f \in {None} \cup Inks : Do(i, Refused(cv[i], f), <<"refused", i, f, CHOOSE k \in Inks : TRUE>>)
           \/ Len(cv) < MaxCanvases /\ cv' = Append(cv, cv[i]) /\ hist' = Append(hist, <<"copy", i, 0, 0>>)
Spec == Init /\ [][Next]_vars
(* executing a program; a background is painted first, with its own ink       *)
RECURSIVE Exec(_, _, _, _)
Exec(p, ink, saved, log) ==
  IF p = <<>> THEN [log |-> log, depth |-> Len(saved)] ELSE
  LET t == Head(p)  r == Tail(p) IN
  CASE t[1] = "ink" -> Exec(r, t[2], saved, log)
    [] t[1] = "gs" -> Exec(r, ink, Append(saved, ink), log)
    [] t[1] = "gr" -> Exec(r, saved[Len(saved)], SubSeq(saved, 1, Len(saved) - 1), log)
    [] OTHER -> Exec(r, ink, saved, Append(log, <<t[1], ink>>))
Faithful == \A i \in 1..Len(cv) :
  LET x == Exec(cv[i].prog, cv[i].bg, <<>>, <<>>)  w == cv[i].want IN
  /\ x.depth = 0 /\ Len(x.log) = Len(w)
  /\ \A j \in 1..Len(w) : x.log[j][1] = w[j][1] /\ (w[j][2] = None \/ x.log[j][2] = w[j][2])
Export == Len(hist) = MaxOps + 1 => PrintT("@E" \o ToJson(hist))
=============================================================================
