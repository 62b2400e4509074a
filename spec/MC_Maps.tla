------------------------------- MODULE MC_Maps -------------------------------
(* C31: the algebra of the inverse projections on exact positions, in every  *)
(* quadrant around every origin.  Sines and cosines are multiples of 1/5.    *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES lon0, lat0, dlon, lat, done
vars == <<lon0, lat0, dlon, lat, done>>
Circle == {<<0, 5>>, <<3, 4>>, <<4, 3>>, <<5, 0>>, <<4, 0 - 3>>, <<3, 0 - 4>>, <<0, 0 - 5>>, <<0 - 3, 0 - 4>>,
           <<0 - 4, 0 - 3>>, <<0 - 5, 0>>, <<0 - 4, 3>>, <<0 - 3, 4>>}        \* <<sine, cosine>> in fifths
Lats == {a \in Circle : a[2] >= 0}
CONSTANT Lons0
Init == lon0 \in {x \in Circle : x[1] >= 0 \/ Lons0 > 1} /\ lat0 \in Lats /\ dlon \in Circle /\ lat \in Lats /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<lon0, lat0, dlon, lat>>
Spec == Init /\ [][Next]_vars
(* the position in the frame of the origin (east, north, up), in 125ths; its  *)
(* longitude is counted from that of the origin                               *)
A == 5 * lat[2] * dlon[1]
B == 5 * lat0[2] * lat[1] - lat0[1] * lat[2] * dlon[2]
C == 5 * lat0[1] * lat[1] + lat0[2] * lat[2] * dlon[2]
OnSphere == A * A + B * B + C * C = 15625
(* a point is found again from its direction and distance: tangent of the     *)
(* longitude difference, with its quadrant, and sine of the latitude          *)
Parallel(x, y, u, v) == x * v = y * u /\ x * u + y * v >= 0
Quadrant == LET h == lat0[2] * C - lat0[1] * B IN           \* in 625ths
            Parallel(5 * A, h, dlon[1], dlon[2]) /\ (5 * A * 5 * A + h * h = 15625 * lat[2] * lat[2])
Latitude == lat0[1] * C + lat0[2] * B = 125 * lat[1]
(* stereographic: (X, Y) = 2 (A, B) / (1 + C); back by the rational formula    *)
S == 125 + C
Rho == A * A + B * B
Stereo == S > 0 => /\ (S * S + Rho) * A = 2 * S * A * 125
                   /\ (S * S + Rho) * B = 2 * S * B * 125
                   /\ (S * S + Rho) * C = (S * S - Rho) * 125
(* equal area: the distance on the map is the chord                            *)
Chord == Rho + (125 - C) * (125 - C) = 2 * 125 * (125 - C)
(* transverse Mercator: sinh x = A / sqrt(1 - A^2), y in the direction of      *)
(* (sin lat, cos lat cos dlon)                                                 *)
Trans == LET h == lat[2] * dlon[2]  v == 5 * lat[1] IN
         /\ h * h + v * v = 625 - (A * A) \div 25
         /\ Parallel(A \div 5, h, dlon[1], dlon[2])
Export == done => PrintT("@E" \o ToJson(<<lon0, lat0, dlon, lat, <<A, B, C>>>>))
=============================================================================
