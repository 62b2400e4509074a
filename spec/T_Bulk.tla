------------------------------- MODULE T_Bulk -------------------------------
(* Judging files with very many or very large items (C09-C14): the layout    *)
(* by arithmetic on positions and lengths instead of bytes, the contents by  *)
(* one text (or digest) per item.                                            *)
EXTENDS Judge, Shp
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1
SumTo(q) == LET RECURSIVE G(_, _) G(i, a) == IF i > Len(q) THEN a ELSE G(i + 1, a + q[i]) IN G(1, 0)
(* shapes: <<type, points, parts>>; recs: <<number, position, words>>;         *)
(* index: <<position in words, words>>; boxes: of the shapes that have points  *)
ShpE(e) ==
  LET n == Len(e.shapes)
      size(i) == SizeOf(e.shapes[i][1], e.shapes[i][2], e.shapes[i][3]) IN
  << <<"shp-header-length", 2 * e.words = e.bytes>>,
     <<"shx-header-length", 2 * e.iwords = e.ibytes /\ e.ibytes = 100 + 8 * n>>,
     <<"number-of-records", Len(e.recs) = n /\ Len(e.index) = n>>,
     <<"records-numbered", \A i \in 1..Len(e.recs) : e.recs[i][1] = i>>,
     <<"record-lengths", \A i \in 1..Len(e.recs) : i <= n => 2 * e.recs[i][3] = size(i)>>,
     <<"records-adjoin", \A i \in 1..Len(e.recs) : i <= n =>
         (IF i < Len(e.recs) THEN e.recs[i + 1][2] ELSE e.bytes) = e.recs[i][2] + 8 + size(i)>>,
     <<"index-matches-records", \A i \in 1..Len(e.index) : i <= Len(e.recs) =>
         /\ 2 * e.index[i][1] = e.recs[i][2] /\ e.index[i][2] = e.recs[i][3]>>,
     <<"header-box", e.boxes # <<>> => \A k \in 1..4 :
         /\ \A i \in 1..Len(e.boxes) : IF k < 3 THEN e.box[k] <= e.boxes[i][k] ELSE e.box[k] >= e.boxes[i][k]
         /\ \E i \in 1..Len(e.boxes) : e.box[k] = e.boxes[i][k]>> >>
TableE(e) ==
  LET r == 1 + SumTo(e.sizes)  h == 33 + 32 * Len(e.sizes) IN
  << <<"table-record-count", e.count = e.n>>, <<"table-header-size", e.hlen = h>>, <<"table-record-size", e.rlen = r>>,
     <<"table-file-size", e.bytes \in {h + e.n * r, h + e.n * r + 1}>> >>
SameE(e) ==
  IF ~Ok(e.res) THEN << <<e.what \o "-read", FALSE>> >>
  ELSE << <<e.what \o "-all-in-order", Len(e.res.v) = Len(e.given)>>,
          <<e.what \o "-same", \A i \in 1..Len(e.given) : i <= Len(e.res.v) => e.res.v[i] = e.given[i]>> >>
(* points of a large part: the worst displacement of every stretch of points    *)
PointsE(e) ==
  IF ~Ok(e.res) THEN << <<"points-read", FALSE>> >>
  ELSE << <<"points-number", e.lens = e.want>>,
          <<"points-half-step", \A i \in 1..Len(e.worst) : e.worst[i] <= e.tol>> >>
CountE(e) == << <<"header-counts", e.head = e.want>> >>
Clauses(e) == CASE e.op = "shp" -> ShpE(e) [] e.op = "table" -> TableE(e) [] e.op = "same" -> SameE(e)
                [] e.op = "points" -> PointsE(e) [] e.op = "count" -> CountE(e)
                [] e.op = "wrote" -> << <<"written", Ok(e.res)>> >>
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
