------------------------------- MODULE T_Frame -------------------------------
(* Judging frames: files of frames and of selected names are remembered as   *)
(* they were written last; reading must give the same.                       *)
EXTENDS Judge, Sphere, Shown
VARIABLES s, l, files
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1 /\ files = <<>>      \* <<path, what>> pairs, latest last
RECURSIVE Find(_, _)
Find(p, i) == IF i = 0 THEN [op |-> "nothing"] ELSE IF files[i].path = p THEN files[i] ELSE Find(p, i - 1)
Same(x, y) == Near(x, y, Add(Tiny(1000000), M(Tiny(1000000), AbsB(x))))
Loaded(e) == LET w == Find(e.path, Len(files)) IN
  << <<"frame-loads", Ok(e.res)>>,
     <<"same-projection", Ok(e.res) => e.kind = w.kind>>,
     <<"same-earth-model", Ok(e.res) => e.model = w.model>>,
     <<"same-box", Ok(e.res) => e.box = w.box>>,
     <<"same-projected-coordinates", Ok(e.res) => Len(e.pts) = Len(w.pts) /\ \A i \in 1..Len(e.pts) :
          e.pts[i].k = w.pts[i].k /\ Same(w.pts[i].x, e.pts[i].x) /\ Same(w.pts[i].y, e.pts[i].y)>> >>
Cached(e) == << <<"selects", Ok(e.res) /\ e.res.v = Len(Select(e.box, e.ents, 1))>> >>
Names(e) == LET w == Find(e.path, Len(files)) IN
  << <<"names-load", Ok(e.res)>>, <<"selected-names", Ok(e.res) => e.res.v = Select(w.box, w.ents, 1)>> >>
(* e.x, e.y, e.scale: numerators over a common denominator                    *)
InCell(c, x, sc) == Le(Mul(c, sc), x) /\ Lt(x, Add(Mul(c, sc), sc))
Placed(e) == << <<"point-in-its-cell", Ok(e.res) /\ InCell(e.cx, e.x, e.scale) /\ InCell(e.cy, e.y, e.scale)>> >>
Clauses(e) == CASE e.op = "saved" -> << <<"frame-saves", Ok(e.res)>> >>
                [] e.op = "loaded" -> Loaded(e) [] e.op = "cached" -> Cached(e)
                [] e.op = "names" -> Names(e) [] e.op = "point" -> Placed(e)
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ files' = IF Sess[l].op \in {"saved", "cached"} THEN Append(files, Sess[l]) ELSE files
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l, files>>
=============================================================================
