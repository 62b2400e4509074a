------------------------------- MODULE Sphere -------------------------------
(* Geometry of the unit sphere in exact fixed-point arithmetic.  Numbers are *)
(* signed Big integers counting units of 10^-12; a position is given by the  *)
(* sines and cosines of its longitude and latitude.                          *)
EXTENDS Big
One == Pos(<<0, 0, 0, 1>>)
Zero == Pos(<<>>)
Two == Pos(<<0, 0, 0, 2>>)
Pi == Pos(<<3590, 9265, 1415, 3>>)
Tiny(k) == Pos(FromInt(k))                    \* k units of 10^-12
Cut(x) == LET n == SubSeq(x.n, 4, Len(x.n)) IN [neg |-> x.neg /\ n # <<>>, n |-> n]
M(x, y) == Cut(Mul(x, y))
Sq(x) == M(x, x)
Sum3(x, y, z) == Add(x, Add(y, z))
Near(x, y, tol) == Le(AbsB(Sub(x, y)), tol)
Small(x, tol) == Le(AbsB(x), tol)
MaxB(x, y) == IF Lt(x, y) THEN y ELSE x
Dot(u, v) == Sum3(M(u[1], v[1]), M(u[2], v[2]), M(u[3], v[3]))
VAdd(u, v) == <<Add(u[1], v[1]), Add(u[2], v[2]), Add(u[3], v[3])>>
VSub(u, v) == <<Sub(u[1], v[1]), Sub(u[2], v[2]), Sub(u[3], v[3])>>
VMul(k, v) == <<M(k, v[1]), M(k, v[2]), M(k, v[3])>>
Cross(u, v) == <<Sub(M(u[2], v[3]), M(u[3], v[2])), Sub(M(u[3], v[1]), M(u[1], v[3])), Sub(M(u[1], v[2]), M(u[2], v[1]))>>
VSmall(u, tol) == \A i \in 1..3 : Small(u[i], tol)
VNear(u, v, tol) == VSmall(VSub(u, v), tol)
Norm2(u) == Dot(u, u)
(* a position p = [so, co, sl, cl] *)
Vec(p) == <<M(p.cl, p.co), M(p.cl, p.so), p.sl>>
North(p) == <<Neg(M(p.sl, p.co)), Neg(M(p.sl, p.so)), p.cl>>
East(p) == <<Neg(p.so), p.co, Zero>>
Angle(s, c) == Near(Add(Sq(s), Sq(c)), One, Tiny(100))       \* sine and cosine of something
Position(p) == Angle(p.so, p.co) /\ Angle(p.sl, p.cl) /\ ~Lt(p.cl, Neg(Tiny(10)))
(* leaving u in the direction b (counter-clockwise from north) for the angle d *)
Travel(u, sb, cb, sd, cd) ==
  VAdd(VMul(cd, Vec(u)), VMul(sd, VSub(VMul(cb, North(u)), VMul(sb, East(u)))))
Chord2(u, v) == Norm2(VSub(Vec(u), Vec(v)))
=============================================================================
