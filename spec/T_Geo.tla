------------------------------- MODULE T_Geo -------------------------------
(* C15: judging the generic geometry view of shapes.                          *)
EXTENDS Judge, Rings
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1
Cw(parts) == TLCEval([i \in 1..Len(parts) |-> Clockwise(parts[i])])
Nested(parts) == LET g == Groups(Cw(parts)) IN [i \in 1..Len(g) |-> [k \in 1..Len(g[i]) |-> parts[g[i][k]]]]
Want(e) ==
  CASE e.cls = "point" -> [type |-> "Point", coords |-> e.parts[1][1]]
    [] e.cls = "multipoint" -> [type |-> "MultiPoint", coords |-> e.parts[1]]
    [] e.cls = "line" -> IF Len(e.parts) = 1 THEN [type |-> "LineString", coords |-> e.parts[1]]
                         ELSE [type |-> "MultiLineString", coords |-> e.parts]
    [] e.cls = "polygon" -> LET n == Nested(e.parts) IN
                            IF Len(n) = 1 THEN [type |-> "Polygon", coords |-> n[1]] ELSE [type |-> "MultiPolygon", coords |-> n]
Clauses(e) ==
  << <<"exports", Ok(e.res)>>,
     <<"kind", Ok(e.res) => e.res.v.type = Want(e).type>>,
     <<"rings-complete-and-grouped", (Ok(e.res) /\ e.res.v.type = Want(e).type) => e.res.v.coords = Want(e).coords>> >>
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
