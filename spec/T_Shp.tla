------------------------------- MODULE T_Shp -------------------------------
(* Judging shapefile sessions: what was added to the writer so far decides    *)
(* what the saved files contain and what is read from them.                   *)
EXTENDS Judge, Shp, Dbf
VARIABLES s, l, w, saved
Sess == Trace[s]
Empty == [type |-> 0, shapes |-> <<>>, fields |-> <<>>, descs |-> <<>>, recs |-> <<>>]
JInit == s \in 1..Len(Trace) /\ l = 1 /\ w = Empty /\ saved = Empty
FileType(x) == IF x.type # 0 THEN x.type
               ELSE LET S == {i \in 1..Len(x.shapes) : x.shapes[i].t # NULL} IN
                    IF S = {} THEN 0 ELSE x.shapes[CHOOSE i \in S : \A j \in S : i <= j].t
-----------------------------------------------------------------------------
(* the bytes of the three files                                               *)
RecordSize(fs) == LET RECURSIVE Sum(_) Sum(i) == IF i = 0 THEN 0 ELSE fs[i].size + Sum(i - 1) IN 1 + Sum(Len(fs))
TableOk(f, fs, ds, n) ==
  LET h == 33 + 32 * Len(fs)  r == RecordSize(fs) IN
  /\ Len(f) \in {h + n * r, h + n * r + 1}
  /\ (At(f, 0) % 8) = 3
  /\ LE32(f, 4) = n /\ Word(f, 8) = h /\ Word(f, 10) = r
  /\ At(f, h - 1) = 13
  /\ \A i \in 1..n : At(f, h + (i - 1) * r) = 32
  /\ \A i \in 1..Len(fs) : LET z == Len(ds[i]) - 1 IN          \* name, end of name, type
        /\ \A k \in 1..z : At(f, 32 * i + k - 1) = ds[i][k]
        /\ z < 11 => At(f, 32 * i + z) = 0
        /\ At(f, 32 * i + 11) = ds[i][z + 1]
  /\ \A i \in 1..Len(fs) : At(f, 32 * i + 16) = fs[i].size /\ At(f, 32 * i + 17) = fs[i].dec
Saves(e) ==
  LET t == FileType(w)  ss == w.shapes IN
  IF ~Ok(e.res) THEN << <<"saves", FALSE>> >>
  ELSE LET off == Offsets(ss)  end == off[Len(ss) + 1] IN
  << <<"shp-header", e.has.shp => HeaderOk(e.shp, t, Len(e.shp) \div 2)>>,
     <<"shp-records", e.has.shp => RecordsOk(e.shp, ss)>>,
     <<"shp-bounds", e.has.shp => Len(e.shp) >= 100 /\ BoundsOk(e.shp, t, ss)>>,
     <<"shx-header", e.has.shx => HeaderOk(e.shx, t, Len(e.shx) \div 2)>>,
     <<"shx-bounds", e.has.shx => Len(e.shx) >= 100 /\ BoundsOk(e.shx, t, ss)>>,
     <<"index-matches-records", e.has.shx => IndexOk(e.shx, ss)>>,
     <<"attribute-table", e.has.dbf => Len(e.dbf) >= 33 /\ TableOk(e.dbf, w.fields, w.descs, Len(w.recs))>>,
     <<"reported-box", (t # NULL /\ e.asked) => e.box = Box(AllPoints(ss)) >>,
     <<"reported-ranges", e.asked => (t \in HasZ => e.zbox = Range(AllPoints(ss), 3)) /\ (t \in HasM => e.mbox = Range(AllPoints(ss), 4))>> >>
-----------------------------------------------------------------------------
(* shapes read back                                                           *)
XYs(pts) == [i \in 1..Len(pts) |-> <<pts[i][1], pts[i][2]>>]
ShapeOk(o, x) ==
  /\ o.t = x.t /\ o.pts = XYs(x.pts)
  /\ x.t \in Parted => o.parts = x.starts
  /\ x.t = 31 => o.ptypes = x.ptypes
  /\ x.t \in Boxed => o.box = Box(x.pts)
  /\ x.t \in HasZ => o.z = Coord(x.pts, 3)
  /\ x.t \in HasM => o.m = Coord(x.pts, 4)
Reads(e) ==
  IF ~Ok(e.res) THEN << <<"reads-shapes", FALSE>> >>
  ELSE << <<"all-shapes-in-order", Len(e.res.v) = Len(saved.shapes)>>,
          <<"same-shapes", \A i \in 1..Len(saved.shapes) : i <= Len(e.res.v) => ShapeOk(e.res.v[i], saved.shapes[i])>>,
          <<"same-type", e.type = FileType(saved)>> >>
-----------------------------------------------------------------------------
(* attributes read back                                                       *)
Upper(c) == IF Len(c) = 1 /\ c[1] \in 97..122 THEN <<c[1] - 32>> ELSE c
Digit(c) == Len(c) = 1 /\ c[1] \in 48..57
Num(t) == LET RECURSIVE N(_, _) N(i, a) == IF i > Len(t) THEN a ELSE N(i + 1, 10 * a + t[i][1] - 48) IN N(1, 0)
Want(f, v) ==
  IF v.k = "none" \/ Strip(v.c) = <<>> THEN [k |-> "text", v |-> <<>>]
  ELSE CASE f.type = "N" -> [k |-> "num", v |-> v.x]
         [] f.type = "L" -> LET c == Upper(v.c[1]) IN
              [k |-> "text", v |-> IF c \in {<<84>>, <<89>>} THEN << <<84>> >> ELSE IF c \in {<<70>>, <<78>>} THEN << <<70>> >> ELSE << <<63>> >>]
         [] f.type = "D" /\ Len(v.c) >= 8 /\ (\A i \in 1..8 : Digit(v.c[i])) ->
              [k |-> "date", v |-> <<Num(SubSeq(v.c, 1, 4)), Num(SubSeq(v.c, 5, 6)), Num(SubSeq(v.c, 7, 8))>>]
         [] OTHER -> [k |-> "text", v |-> Text("C", f.size, v.c)]
RowOk(o, r) == /\ Len(o) = Len(saved.fields)
               /\ \A i \in 1..Len(saved.fields) : LET x == Want(saved.fields[i], r[i]) IN o[i].k = x.k /\ o[i].v = x.v
Rows(e) ==
  IF ~Ok(e.res) THEN << <<"reads-records", FALSE>> >>
  ELSE << <<"all-records-in-order", Len(e.res.v) = Len(saved.recs)>>,
          <<"same-values", \A i \in 1..Len(saved.recs) : i <= Len(e.res.v) => RowOk(e.res.v[i], saved.recs[i])>> >>
Fields(e) ==
  IF ~Ok(e.res) THEN << <<"reads-fields", FALSE>> >>
  ELSE << <<"same-fields", /\ Len(e.res.v) = Len(saved.fields) + 1
                           /\ \A i \in 1..Len(saved.fields) : e.res.v[i + 1] = saved.fields[i]>> >>
-----------------------------------------------------------------------------
Added(e) == << <<"accepted", Ok(e.res)>>, <<"arguments-unchanged", e.same>> >>
(* a number wider than its field is refused, or kept: never shortened         *)
TooWide(e) == << <<"never-shortened", Ok(e.res) => e.res.v = e.want>> >>
Clauses(e) == CASE e.op = "toowide" -> TooWide(e) [] e.op \in {"add", "field", "record"} -> Added(e)
                [] e.op = "save" -> Saves(e) [] e.op = "shapes" -> Reads(e)
                [] e.op = "records" -> Rows(e) [] e.op = "fields" -> Fields(e)
                [] OTHER -> <<>>
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ LET e == Sess[l] IN
            /\ w' = CASE e.op = "new" -> [Empty EXCEPT !.type = e.type]
                      [] e.op = "add" -> [w EXCEPT !.shapes = Append(@, Stored(e.shape))]
                      [] e.op = "field" -> [w EXCEPT !.fields = Append(@, e.f), !.descs = Append(@, e.desc)]
                      [] e.op = "record" -> [w EXCEPT !.recs = Append(@, e.vals)]
                      [] OTHER -> w
            /\ saved' = IF e.op \in {"save", "saved"} THEN w ELSE saved
            /\ RunClauses(s, l, Clauses(e), "")
JSpec == JInit /\ [][JNext]_<<s, l, w, saved>>
=============================================================================
