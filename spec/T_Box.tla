------------------------------- MODULE T_Box -------------------------------
(* Judging recorded box operations (C01-C03).  Coordinates are in 1/8.      *)
EXTENDS Judge, Box
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1

Measure(e) == LET b == e.box IN
  << <<"tight-box", e.res = Tight(e.pts)>> >>

Meas(e) == LET b == e.box IN
  << <<"width", e.w = W(b)>>, <<"height", e.h = H(b)>>,
     <<"area", e.area = Area(b)>>,
     <<"center", e.cx = b[1] + b[3] /\ e.cy = b[2] + b[4]>>,
     <<"hypot", Abs(e.hyp * e.hyp - 100 * (W(b) * W(b) + H(b) * H(b))) <= e.hyp + 1>>,
     <<"unchanged", e.after = b>> >>

Shift(b, d) == <<b[1] + d[1], b[2] + d[2], b[3] + d[1], b[4] + d[2]>>
Translate(e) ==
  << <<"translate", e.res = Shift(e.box, e.d)>>,
     <<"plus", e.plus = Shift(e.box, e.d)>>,
     <<"minus", e.minus = Shift(e.box, <<-e.d[1], -e.d[2]>>)>>, <<"a-new-box", e.fresh>>,
     <<"unchanged", e.after = e.box>> >>

(* factor F/4, results in 1/64: centre +- half the side times the factor *)
Scaled(b, F) == << 4 * (b[1] + b[3]) - W(b) * F, 4 * (b[2] + b[4]) - H(b) * F,
                   4 * (b[1] + b[3]) + W(b) * F, 4 * (b[2] + b[4]) + H(b) * F >>
Scale(e) ==
  << <<"scale", e.res = Scaled(e.box, e.F)>>,
     <<"times", e.times = Scaled(e.box, e.F)>>, <<"a-new-box", e.fresh>>,
     <<"unchanged", e.after = e.box>> >>
(* dividing by F/4, results in F/64 (rounded) *)
Divide(e) == LET b == e.box F == e.F  x == 4 * F * (b[1] + b[3])  y == 4 * F * (b[2] + b[4])
                 w == 16 * W(b)  h == 16 * H(b)  x2 == <<x - w, y - h, x + w, y + h>> IN
  << <<"divide", \A i \in 1..4 : Abs(e.res[i] - x2[i]) <= 1>>,
     <<"unchanged", e.after = e.box>> >>

PairOf(e) == LET a == e.a  b == e.b IN
  << <<"union", e.or = Union(a, b)>>, <<"union-with-nothing", a # Empty => e.none = a>>,
     <<"intersection", e.and = Inter(a, b)>>,
     <<"collide", (Area(a) > 0 /\ Area(b) > 0) => e.collide = Collide(a, b)>>,
     <<"has-box", e.hasbox = HasBox(a, b) /\ e.inbox = HasBox(a, b)>>,
     <<"has-point", e.haspt = HasPoint(a, e.p) /\ e.inpt = HasPoint(a, e.p)>>,
     <<"operands-unchanged", e.a2 = a /\ e.b2 = b>>,
     <<"membership-type-error", e.badin = "TypeError">>,
     <<"copy", e.copy = a /\ e.copysep>> >>

Order(e) == LET c == Cmp(e.a, e.b) IN
  << <<"eq", e.c.eq = c.eq>>, <<"ne", e.c.ne = c.ne>>, <<"lt", e.c.lt = c.lt>>,
     <<"le", e.c.le = c.le>>, <<"gt", e.c.gt = c.gt>>, <<"ge", e.c.ge = c.ge>>,
     <<"truth", e.c.truth = c.truth>>, <<"equals-boxes-only", e.others = 0>>, <<"hash", c.eq => e.c.hash>>,
     <<"set-and-dict", c.eq = e.c.insets>> >>

Clauses(e) == CASE e.op = "tight" -> Measure(e) [] e.op = "measure" -> Meas(e)
                [] e.op = "translate" -> Translate(e) [] e.op = "scale" -> Scale(e)
                [] e.op = "divide" -> Divide(e) [] e.op = "pair" -> PairOf(e)
                [] e.op = "order" -> Order(e)
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
