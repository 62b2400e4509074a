------------------------------- MODULE Compass -------------------------------
(* Directions: counter-clockwise bearings in units of 1/D degree.            *)
EXTENDS Integers, Sequences
Points == <<"N", "NNW", "NW", "WNW", "W", "WSW", "SW", "SSW", "S", "SSE", "SE", "ESE", "E", "ENE", "NE", "NNE">>
(* angle between directions, at most half a turn                             *)
Gap(a, b, D) == LET d == (a - b) % (360 * D) IN IF 2 * d > 360 * D THEN 360 * D - d ELSE d
PointAt(i, D) == ((i - 1) * 45 * D) \div 2                 \* D even
Nearest(b, D, tol) == {Points[i] : i \in {j \in 1..16 : 4 * Gap(b, PointAt(j, D), D) <= 45 * D + 4 * tol}}
(* the hour hand, times 30: twelve is up, hours run clockwise                 *)
HourOk(h30, b, D, tol) == Gap(h30, 0 - b, D) <= tol
=============================================================================
