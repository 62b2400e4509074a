------------------------------ MODULE T_Sphere ------------------------------
(* Judging distances, bearings, journeys, midpoints, radii and centroids.    *)
EXTENDS Judge, Sphere
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1
Fine == Tiny(100000)                   \* 10^-7: angles near half a turn lose half of the digits
(* e.d: the distance over the radius; e.ch: the chord of that angle           *)
Apart(e) == Chord2(e.u, e.v)
Dist(e) ==
  << <<"distance-defined", Ok(e.res)>>,
     <<"distance-in-range", Ok(e.res) => ~e.d.neg /\ Le(e.d, Add(Pi, Tiny(10)))>>,
     <<"distance-fits", Ok(e.res) => Near(Sq(e.ch), Apart(e), Add(Tiny(8), M(Tiny(1000), e.ch)))>>,
     <<"distance-symmetric", Ok(e.res) => Ok(e.back) /\ Near(e.d, e.rd, IF Lt(Tiny(2000000000), Sub(Pi, e.d)) THEN Tiny(1000) ELSE Fine)>>,
     <<"zero-only-if-same", Ok(e.res) => IF e.same THEN Le(e.d, Tiny(3)) ELSE e.positive>> >>
(* without a radius: between that of the poles and that of the equator        *)
DistEarth(e) == << <<"distance-on-earth", Ok(e.res) /\ ~Lt(e.d, M(e.ang, Sub(e.polar, Tiny(1000000)))) /\ ~Lt(M(e.ang, Add(One, Tiny(1000000))), e.d)>>,
                  <<"radius-at-the-mean-latitude", Ok(e.res) => Near(e.d, M(e.ang, e.mean), Tiny(1000000))>> >>
(* e.pb, e.pn: the destination's coordinates east and north of the start      *)
Bearing(e) ==
  LET n == Dot(Vec(e.v), North(e.u))  a == Dot(Vec(e.v), East(e.u)) IN
  << <<"bearing-defined", Ok(e.res)>>,
     <<"bearing-points-there", Ok(e.res) => Angle(e.sb, e.cb) /\ Small(Add(M(n, e.sb), M(a, e.cb)), Tiny(100))
                               /\ ~Lt(Sub(M(n, e.cb), M(a, e.sb)), Neg(Tiny(100)))>> >>
Place(w) == Position(w)
Goes(e) ==
  << <<"destination-defined", Ok(e.res)>>,
     <<"destination-normal", Ok(e.res) => e.inrange>>,
     <<"destination-fits", Ok(e.res) => VNear(Vec(e.w), Travel(e.u, e.sb, e.cb, e.sd, e.cd), Fine)>> >>
Exactly(e) == << <<"destination-exact", Ok(e.res) /\ VNear(Vec(e.w), e.want, Fine)>> >>
Arrives(e) == << <<"journey-arrives", Ok(e.res) /\ VNear(Vec(e.w), Vec(e.v), Fine)>> >>
Middle(e) ==
  LET h == VAdd(Vec(e.u), Vec(e.v)) IN
  << <<"midpoint-defined", Ok(e.res)>>,
     <<"midpoint-between", Ok(e.res) => VSmall(Cross(h, Vec(e.m)), Tiny(1000)) /\ ~Lt(Dot(h, Vec(e.m)), Zero)>>,
     <<"midpoint-halves", Ok(e.res) => Near(Add(e.d1, e.d1), e.d, Fine) /\ Near(Add(e.d2, e.d2), e.d, Fine)>> >>
Along(e) == << <<"distances-add-up", Ok(e.res) /\ Near(Add(e.d1, e.d2), e.d, Fine)>> >>
(* geocentric radius: q = b/a, rho = r/a                                       *)
Radius(e) ==
  LET c2 == Sq(e.cl)  s2 == Sq(e.sl)  q2 == Sq(e.q) IN
  << <<"radius-defined", Ok(e.res)>>,
     <<"radius-geocentric", Ok(e.res) => Near(M(Sq(e.rho), Add(c2, M(q2, s2))), Add(c2, M(Sq(q2), s2)), Tiny(1000)) /\ ~e.rho.neg>> >>
(* centroid: in the equal-area plane around it, the moments vanish.  e.k are    *)
(* the lengthenings of the chords, with k^2 (1 + cos) = 2                       *)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN Zero ELSE Add(f[n], SumTo(f, n - 1))
Poly(c, pts, ks) ==
  LET n == Len(pts)
      x == [i \in 1..n |-> M(ks[i], Dot(Vec(pts[i]), East(c)))]
      y == [i \in 1..n |-> M(ks[i], Dot(Vec(pts[i]), North(c)))]
      j(i) == (i % n) + 1
      f == [i \in 1..n |-> Sub(M(x[i], y[j(i)]), M(x[j(i)], y[i]))] IN
  [a |-> SumTo(f, n),
   mx |-> SumTo([i \in 1..n |-> M(f[i], Add(x[i], x[j(i)]))], n),
   my |-> SumTo([i \in 1..n |-> M(f[i], Add(y[i], y[j(i)]))], n),
   ok |-> \A i \in 1..n : Near(M(Sq(ks[i]), Add(One, Dot(Vec(pts[i]), Vec(c)))), Two, Tiny(10000))]
Centroid(e) ==
  IF ~Ok(e.res) THEN << <<"centroid-defined", FALSE>> >> ELSE
  LET P == [i \in 1..Len(e.region) |-> Poly(e.c, e.region[i], e.k[i])]
      n == Len(P)
      A == SumTo([i \in 1..n |-> P[i].a], n)
      mx == SumTo([i \in 1..n |-> P[i].mx], n)
      my == SumTo([i \in 1..n |-> P[i].my], n)
      tol == Add(Tiny(300), M(Tiny(100000), AbsB(A))) IN
  << <<"centroid-encoding", \A i \in 1..n : P[i].ok>>,
     <<"centroid-balances", Small(mx, tol) /\ Small(my, tol)>> >>
Same(e) == << <<"centroid-independent", Ok(e.res) /\ VNear(Vec(e.c), Vec(e.c2), Tiny(10000))>> >>
Clauses(e) == CASE e.op = "dist" -> Dist(e) [] e.op = "earth" -> DistEarth(e) [] e.op = "bearing" -> Bearing(e)
                [] e.op = "goes" -> Goes(e) [] e.op = "exactly" -> Exactly(e) [] e.op = "arrives" -> Arrives(e) [] e.op = "middle" -> Middle(e)
                [] e.op = "along" -> Along(e) [] e.op = "radius" -> Radius(e) [] e.op = "centroid" -> Centroid(e)
                [] e.op = "same" -> Same(e)
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
