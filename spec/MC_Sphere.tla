------------------------------ MODULE MC_Sphere ------------------------------
(* C33 on positions whose coordinates are exact fractions (multiples of 1/5 *)
(* for sines and cosines): the vector model of bearings, journeys and        *)
(* midpoints is consistent, without any rounding.                            *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES lon, lat, lon2, lat2, done
Circle == {<<0, 5>>, <<3, 4>>, <<4, 3>>, <<5, 0>>, <<4, 0 - 3>>, <<3, 0 - 4>>, <<0, 0 - 5>>, <<0 - 3, 0 - 4>>,
           <<0 - 4, 0 - 3>>, <<0 - 5, 0>>, <<0 - 4, 3>>, <<0 - 3, 4>>}        \* <<sine, cosine>> in fifths
Lats == {a \in Circle : a[2] >= 0}
Vec(o, a) == <<a[2] * o[2], a[2] * o[1], 5 * a[1]>>                            \* in 25ths
North(o, a) == <<0 - a[1] * o[2], 0 - a[1] * o[1], 5 * a[2]>>
East(o) == <<0 - 5 * o[1], 5 * o[2], 0>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
VAdd(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
VSub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
VMul(k, v) == <<k * v[1], k * v[2], k * v[3]>>
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
U == Vec(lon, lat)  N == North(lon, lat)  E == East(lon)
V == Vec(lon2, lat2)
Init == lon \in Circle /\ lat \in Lats /\ lon2 \in Circle /\ lat2 \in Circle /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<lon, lat, lon2, lat2>>
Spec == Init /\ [][Next]_<<lon, lat, lon2, lat2, done>>
(* an orthonormal frame at every position *)
Frame == Dot(U, U) = 625 /\ Dot(N, N) = 625 /\ Dot(E, E) = 625 /\ Dot(U, N) = 0 /\ Dot(U, E) = 0 /\ Dot(N, E) = 0
         /\ Cross(E, N) = VMul(25, U)
(* bearing and distance as (cos d, sin d cos b, sin d sin b), in 625ths; the  *)
(* journey along them arrives                                                 *)
CosD == Dot(U, V)  Cb == Dot(V, N)  Sb == 0 - Dot(V, E)
Arrives == lat2[2] >= 0 => VSub(VAdd(VMul(CosD, U), VMul(Cb, N)), VMul(Sb, E)) = VMul(625, V)
Pythagoras == lat2[2] >= 0 => CosD * CosD + Cb * Cb + Sb * Sb = 390625
ChordLaw == lat2[2] >= 0 => LET D == VSub(U, V) IN Dot(D, D) = 2 * (625 - CosD)
(* the midpoint direction halves the distance: cos d = 2 cos^2(d/2) - 1       *)
Mid == VAdd(U, V)
Halves == lat2[2] >= 0 => /\ Dot(Mid, U) = Dot(Mid, V)
                          /\ 2 * Dot(Mid, U) * Dot(Mid, U) = Dot(Mid, Mid) * (CosD + 625)
(* journeys: direction lon2, distance lat2 (any angle)                         *)
W == VAdd(VMul(5 * lat2[2], U), VMul(lat2[1], VSub(VMul(lon2[2], N), VMul(lon2[1], E))))   \* in 625ths
OnSphere == Dot(W, W) = 390625 /\ Dot(W, U) = 625 * 5 * lat2[2]
Export == done => PrintT("@E" \o ToJson(<<lon, lat, lon2, lat2, W>>))
=============================================================================
