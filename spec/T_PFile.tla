------------------------------ MODULE T_PFile ------------------------------
(* Judging recorded P files with exact arithmetic (C10).  Coordinates are   *)
(* integers over the event's common denominator d (a Big number).           *)
EXTENDS Judge, Big
V == INSTANCE Vlq WITH Group <- 128
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1
R46 == TLCEval(Pow2(46))

RECURSIVE Wrap(_, _)
Wrap(x, d) == LET h == Mul(I(180), d) IN
  IF Lt(x, Neg(h)) THEN Wrap(Add(x, Mul(I(360), d)), d)
  ELSE IF Lt(h, x) THEN Wrap(Sub(x, Mul(I(360), d)), d) ELSE x
Wrapped(p, d) == <<Wrap(p[1], d), p[2]>>
SameP(p, q) == Eq(p[1], q[1]) /\ Eq(p[2], q[2])
Open(part) == IF Len(part) > 1 /\ SameP(part[1], part[Len(part)])
              THEN SubSeq(part, 1, Len(part) - 1) ELSE part
Want(e) == [i \in 1..Len(e.want) |-> Open(TLCEval([j \in 1..Len(e.want[i]) |-> Wrapped(e.want[i][j], e.d)]))]
UMax(size) == Pos(SubN(Pow2(8 * size), <<1>>))
Tol(d) == Mul(I(360), d)            \* over 2^46

(* |got - w| <= (hi - lo) / (2 umax) + 360 / 2^46 *)
Near(g, w, lo, hi, size, d) ==
  LET u == Mul(I(2), UMax(size)) IN
  Le(Mul(Mul(AbsB(Sub(g, w)), u), Pos(R46)), Add(Mul(Sub(hi, lo), Pos(R46)), Mul(u, Tol(d))))
(* lo <= w + tol /\ w <= hi + tol *)
Inside(w, lo, hi, d) == /\ Le(Mul(Sub(lo, w), Pos(R46)), Tol(d)) /\ Le(Mul(Sub(w, hi), Pos(R46)), Tol(d))
(* the box's edge lo is no more than a 65535th of the world (span degrees) from some point *)
Tight(lo, w, span, d) == Le(Mul(Mul(AbsB(Sub(w, lo)), I(65535)), Pos(R46)),
                            Add(Mul(Mul(I(span), d), Pos(R46)), Mul(I(65535), Tol(d))))
ReadE(e) ==
  IF ~Ok(e.res) THEN << <<"read-succeeds", FALSE>> >>
  ELSE LET W == TLCEval(Want(e)) G == e.res.v
           shape == Len(W) = Len(G) /\ \A i \in 1..Len(W) : i <= Len(G) => Len(W[i]) = Len(G[i])
           b == e.box
           all == {<<i, j>> : i \in 1..Len(W), j \in 1..64} IN
    IF ~shape THEN << <<"parts-and-points", FALSE>> >>
    ELSE << <<"longitude-half-step", \A i \in 1..Len(W) : \A j \in 1..Len(W[i]) :
                Near(G[i][j][1], W[i][j][1], b[1], b[2], e.size, e.d)>>,
            <<"latitude-half-step", \A i \in 1..Len(W) : \A j \in 1..Len(W[i]) :
                Near(G[i][j][2], W[i][j][2], b[3], b[4], e.size, e.d)>>,
            <<"box-encloses", \A i \in 1..Len(W) : \A j \in 1..Len(W[i]) :
                /\ Inside(W[i][j][1], b[1], b[2], e.d) /\ Inside(W[i][j][2], b[3], b[4], e.d)>>,
            <<"box-tight", \A k \in 1..4 : \E i \in 1..Len(W) : \E j \in 1..Len(W[i]) :
                Tight(b[k], W[i][j][IF k < 3 THEN 1 ELSE 2], IF k < 3 THEN 360 ELSE 180, e.d)>> >>
RECURSIVE FindFrom(_, _, _)
FindFrom(ns, n, i) == IF i > Len(ns) THEN 0 ELSE IF ns[i] = n THEN i ELSE FindFrom(ns, n, i + 1)
AgainE(e) == LET i == IF e.by = "name" THEN FindFrom(Sess[1].names, e.key, 1) ELSE e.idx + 1 IN
  << <<"same-in-any-order", e.text = Sess[1].texts[i]>> >>
OpenE(e) == << <<"opens", Ok(e.res)>>, <<"refused", \A i \in 1..Len(e.refused) : e.refused[i] = "exc">>, <<"names", Ok(e.res) => e.res.v = e.names>>,
               <<"count", Ok(e.res) => e.count = Len(e.names)>> >>
(* the file itself: version 0 of the P format                                *)
RECURSIVE Name(_, _), Lens(_, _, _, _), Index(_, _, _, _)
Name(b, i) == IF i > Len(b) \/ b[i] = 0 THEN i ELSE Name(b, i + 1)       \* where a text ends
Num(b, i) == IF i > Len(b) \/ \A j \in i..Len(b) : b[j] >= 128 THEN <<0 - 1, Len(b) + 1>>
             ELSE LET r == V!Read(b, i) IN <<IF Len(r[1]) > 4 THEN 0 - 1 ELSE V!Value(r[1]), r[2]>>
Lens(b, i, n, acc) == IF n <= 0 THEN <<acc, i>>
                      ELSE LET r == Num(b, i) IN Lens(b, r[2], n - 1, Append(acc, r[1]))
Index(b, i, n, acc) ==
  IF n <= 0 THEN [ents |-> acc, at |-> i]
  ELSE LET z == Name(b, i)
           m == Num(b, z + 1)
           ls == Lens(b, m[2] + 8, m[1], <<>>) IN
       Index(b, ls[2], n - 1, Append(acc, [name |-> SubSeq(b, i, z - 1), parts |-> ls[1]]))
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
FileE(e) ==
  LET b == e.bytes
      rows == Num(b, 5)  ents == Num(b, rows[2])
      x == Index(b, ents[2], IF ents[1] > 50 THEN 0 ELSE ents[1], <<>>)
      all == Total([i \in 1..Len(e.parts) |-> Total(e.parts[i])]) IN
  << <<"file-signature-and-size", Len(b) > 4 /\ SubSeq(b, 1, 4) = <<80, 70, 0, e.size>> >>,
     <<"file-counts", rows[1] = all /\ ents[1] = Len(e.parts)>>,
     <<"file-index", x.ents = [i \in 1..Len(e.parts) |-> [name |-> e.names[i], parts |-> e.parts[i]]]>>,
     <<"file-data", Len(b) - x.at + 1 = all * 2 * e.size>> >>
ErrsE(e) == << <<"one-error-per-point", Len(e.errs) = Len(e.disp)>>,
  <<"error-is-displacement", \A i \in 1..Min2(Len(e.errs), Len(e.disp)) :
      Abs(e.errs[i] - e.disp[i]) <= 2 + e.disp[i] \div 100000>> >>
Clauses(e) == CASE e.op = "open" -> OpenE(e) [] e.op = "read" -> ReadE(e)
                [] e.op = "again" -> AgainE(e) [] e.op = "errs" -> ErrsE(e) [] e.op = "file" -> FileE(e)
                [] e.op = "kept" -> << <<"name-refused-or-kept", e.res.k = "exc" \/ (Ok(e.res) /\ e.res.v = <<e.name>>)>> >>
                [] e.op = "ends" -> << <<"writing-ends", e.res.k # "hang">> >>
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
