------------------------------- MODULE T_Atlas -------------------------------
(* C37: judging maps drawn from shapefiles and from tables with P files.  The *)
(* saved program is executed; every part asked for is one outline that traces *)
(* the part's pixels, simplified as C05 says.                                 *)
EXTENDS T_Simplify
PS == INSTANCE PS
VARIABLES src, rows
AInit == JInit /\ src = <<>> /\ rows = <<>>
M == Sess[1]                 \* [op "map", want, min, fill, stroke, bg, kind]
(* the entities to draw, in order: those of the file, or those the table names *)
Entity(id) == src[CHOOSE k \in 1..Len(src) : src[k].id = id]
Listed == IF M.kind = "table" THEN [k \in 1..Len(rows) |-> [attr |-> rows[k].attr, rings |-> Entity(rows[k].id).rings]] ELSE src
Wanted == SelectSeq(Listed, LAMBDA e : e.attr = M.want)
RECURSIVE Rings(_, _)
Rings(es, k) == IF k > Len(es) THEN <<>> ELSE SelectSeq(es[k].rings, LAMBDA r : Len(r.px) >= M.min) \o Rings(es, k + 1)
(* outlines found *)
Whole(a) == \A v \in 1..2 : a[v] % PS!U = 0
Outline(m) == LET p == m.path n == Len(p) IN
  /\ n >= 2 /\ p[1].k = "m" /\ p[n].k = "c" /\ \A k \in 2..(n - 1) : p[k].k = "l"
  /\ \A k \in 1..(n - 1) : Whole(p[k].a)
Points(m) == [k \in 1..(Len(m.path) - 1) |-> <<m.path[k].a[1] \div PS!U, m.path[k].a[2] \div PS!U>>]
RingOk(r, m) == LET c == Open([pts |-> r.px, m |-> 1, res |-> [k |-> "ok", v |-> Points(m)]]) IN \A x \in 1..Len(c) : c[x][2]
Inks == (IF M.fill = <<>> THEN <<>> ELSE << <<"fill", M.fill>> >>) \o (IF M.stroke = <<>> THEN <<>> ELSE << <<"stroke", M.stroke>> >>)
Mn(S) == CHOOSE x \in S : \A y \in S : x <= y
Mx(S) == CHOOSE x \in S : \A y \in S : x >= y
Around(rs, ps) == LET pts == UNION {{ps[a][b] : b \in 1..Len(ps[a])} : a \in {a \in 1..Len(rs) : ~rs[a].out}}
                      X == {p[1] : p \in pts}  Y == {p[2] : p \in pts} IN
                  IF pts = {} THEN <<0, 0, 0, 0>> ELSE <<PS!U * Mn(X), PS!U * Mn(Y), PS!U * Mx(X), PS!U * Mx(Y)>>
Saved(e) ==
  LET R == PS!Run(PS!Start, e.prog)
      L == IF M.bg = <<>> THEN R.log ELSE Tail(R.log)
      rs == TLCEval(Rings(Wanted, 1))
      n == Len(Inks)  ready == Len(L) = n * Len(rs) /\ \A k \in 1..Len(L) : L[k].k \in {"fill", "stroke"} /\ Outline(L[k]) IN
  IF e.err # "" THEN << <<"draws", FALSE>> >>
  ELSE IF R.bad # "" \/ (M.bg # <<>> /\ R.log = <<>>) THEN << <<"program-executes", FALSE>> >>
  ELSE
  << <<"every-part-asked-for", Len(L) = n * Len(rs)>>,
     <<"outlines", ready>>,
     <<"parts-in-order", ready => \A k \in 1..Len(L) : RingOk(rs[((k - 1) \div n) + 1], L[k])>>,
     <<"inks", ready => \A k \in 1..Len(L) : LET w == Inks[((k - 1) % n) + 1] IN L[k].k = w[1] /\ L[k].ink = w[2]>>,
     <<"box-around-region", e.head /\ (ready => e.box = Around(rs, TLCEval([k \in 1..Len(rs) |-> Points(L[n * k])])))>> >>
AClauses(e) == IF e.op = "saved" THEN Saved(e) ELSE <<>>
ANext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ LET e == Sess[l] IN
            /\ src' = IF e.op = "entity" THEN Append(src, e) ELSE src
            /\ rows' = IF e.op = "row" THEN Append(rows, e) ELSE rows
            /\ RunClauses(s, l, AClauses(e), "")
ASpec == AInit /\ [][ANext]_<<s, l, src, rows>>
=============================================================================
