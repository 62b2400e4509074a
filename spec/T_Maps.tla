------------------------------- MODULE T_Maps -------------------------------
(* Judging projections: round trips, local stretching, directions and        *)
(* distances from the centre.                                                *)
EXTENDS Judge, Sphere
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1
-----------------------------------------------------------------------------
(* round trips: e.p is projected and inverted to e.q                          *)
Sin(p, o) == Sub(M(p.so, o.co), M(p.co, o.so))             \* of the longitude difference
Never(e) == CASE e.kind \in {"Mercator", "EMercator"} -> e.p.cl = Zero /\ e.p.sl.neg
              [] e.kind = "TransMercator" -> AbsB(M(e.p.cl, Sin(e.p, e.o))) = One
              [] OTHER -> FALSE
Perhaps(e) == CASE e.kind \in {"Mercator", "EMercator"} -> e.p.cl = Zero /\ ~e.p.sl.neg
                [] e.kind = "TransMercator" -> ~Lt(AbsB(M(e.p.cl, Sin(e.p, e.o))), Sub(One, Tiny(50)))
                [] OTHER -> FALSE
\* the distance from the centre is found through its cosine, which loses digits near the antipode
Opposite(e) == e.kind = "AzimuthalEquidistant" /\ Lt(Dot(Vec(e.o), Vec(e.p)), Sub(Tiny(50000000), One))
Tol(e) == CASE Lt(e.p.cl, Pos(<<0, 0, 100>>)) -> Tiny(2000000)
            [] Opposite(e) -> Tiny(200000)
            [] OTHER -> Tiny(1000)
Back(e) == Ok(e.fwd) /\ Ok(e.inv) /\ Position(e.q) /\ VNear(Vec(e.p), Vec(e.q), Tol(e))
Trip(e) ==
  << <<"refused-with-projection-error", (Never(e) /\ ~Perhaps(e)) => Exc(e.fwd, "ProjectionError")>>,
     <<"inverse-returns-point", ~Never(e) => (Back(e) \/ (Perhaps(e) /\ Exc(e.fwd, "ProjectionError")))>>,
     <<"longitude-within-half-a-turn", (e.turn /\ Ok(e.inv)) => e.inrange>> >>
-----------------------------------------------------------------------------
(* local behaviour: derivatives by longitude (xl, yl) and latitude (xp, yp)   *)
(* over the radius; e.w^2 = 1 - e2 sl^2 on an ellipsoid of eccentricity^2 e2  *)
Len2(x, y) == Add(Sq(x), Sq(y))
Det(e) == Sub(M(e.xl, e.yp), M(e.yl, e.xp))
Rel(x, y) == Near(x, y, Add(Tiny(1000000), M(Tiny(1000000), MaxB(AbsB(x), AbsB(y)))))      \* 10^-6
Well(e) == Ok(e.res) /\ Angle(e.sl, e.cl) /\ Near(Sq(e.w), Sub(One, M(e.e2, Sq(e.sl))), Tiny(100))
(* stretch along the parallel: |d/dlon| w / cl; along the meridian:            *)
(* |d/dlat| w^3 / (1 - e2)                                                     *)
East2(e) == M(Len2(e.xl, e.yl), Sq(e.w))
North2(e) == M(M(Len2(e.xp, e.yp), Sq(e.w)), Sq(Sq(e.w)))
Flat2(e) == Sq(Sub(One, e.e2))
Conformal(e) ==
  << <<"projects", Well(e)>>,
     <<"directions-at-right-angles", Well(e) => LET d == Add(M(e.xl, e.xp), M(e.yl, e.yp)) IN Small(d, Add(Tiny(1000000), M(Tiny(1000000), Len2(e.xp, e.yp))))>>,
     <<"not-mirrored", Well(e) => ~Det(e).neg>>,
     <<"equal-stretch", Well(e) => Rel(M(East2(e), Flat2(e)), M(North2(e), Sq(e.cl)))>>,
     <<"reported-scale", (Well(e) /\ e.hask) => (Ok(e.kres) /\ Rel(East2(e), M(Sq(e.k), Sq(e.cl))) /\ ~e.k.neg)>> >>
EqualArea(e) ==
  << <<"projects", Well(e)>>,
     <<"area-preserved", Well(e) => Rel(Det(e), e.cl)>>,
     <<"reported-scale", (Well(e) /\ e.hask) => (Ok(e.kres) /\ Rel(Len2(e.xp, e.yp), Sq(e.k)) /\ ~e.k.neg)>> >>
(* the conic map is true to scale along both of its standard parallels        *)
Parallel(e) == << <<"standard-parallel", Well(e) /\ Rel(Len2(e.xl, e.yl), Sq(e.cl)) /\ Rel(Len2(e.xp, e.yp), One)>> >>
Grows(e) == << <<"grows-east-and-north", Well(e) /\ ~e.xl.neg /\ e.xl.n # <<>> /\ ~e.yp.neg /\ e.yp.n # <<>>
                                         /\ Small(e.yl, Tiny(10000000)) /\ Small(e.xp, Tiny(10000000))>>,
               <<"true-at-the-centre", e.true => (Rel(e.xl, e.cl) /\ Rel(e.yp, One))>> >>
Shift(e) == << <<"relative-longitude", Ok(e.res) /\ Ok(e.res2) /\ Rel(e.x, e.x2) /\ Rel(e.y, e.y2)>> >>
(* azimuthal: the direction from the centre, and distances                     *)
Azimuth(e) ==
  LET a == Dot(Vec(e.p), East(e.o))  b == Dot(Vec(e.p), North(e.o))  c == Dot(Vec(e.p), Vec(e.o)) IN
  << <<"projects", Ok(e.res)>>,
     <<"direction-kept", Ok(e.res) => LET d == Sub(M(e.x, b), M(e.y, a)) IN
                           Small(d, Tiny(10000)) /\ ~Lt(Add(M(e.x, a), M(e.y, b)), Neg(Tiny(1000)))>>,
     <<"distance-kept", (Ok(e.res) /\ e.kind = "AzimuthalEquidistant") =>
          Angle(e.sp, e.cp) /\ Near(e.cp, c, Tiny(1000)) /\ Near(Sq(e.sp), Len2(a, b), Tiny(1000)) /\ ~Lt(Add(Pi, Tiny(10)), e.dist)
          /\ Near(Sq(e.dist), Len2(e.x, e.y), Tiny(100000))>>,
     <<"chord-kept", (Ok(e.res) /\ e.kind = "AzimuthalEqualArea") => Near(Len2(e.x, e.y), Add(Sub(One, c), Sub(One, c)), Tiny(10000))>>,
     <<"stereographic", (Ok(e.res) /\ e.kind = "Stereographic") =>
          LET g == Add(One, c)  t == Add(Tiny(10000), M(Tiny(10000), AbsB(e.x))) IN
          Near(M(e.x, g), Add(a, a), t) /\ Near(M(e.y, g), Add(b, b), Add(t, M(Tiny(10000), AbsB(e.y))))>> >>
Clauses(e) == CASE e.op = "trip" -> Trip(e) [] e.op = "conformal" -> Conformal(e) [] e.op = "equalarea" -> EqualArea(e)
                [] e.op = "grows" -> Grows(e) [] e.op = "parallel" -> Parallel(e) [] e.op = "shift" -> Shift(e) [] e.op = "azimuth" -> Azimuth(e)
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
