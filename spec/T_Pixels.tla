------------------------------ MODULE T_Pixels ------------------------------
(* Judging recorded canvas sessions (C16) and drawings (C17-C19).  A        *)
(* picture is a sequence of rows of pixels, a pixel a sequence of channels. *)
EXTENDS Judge, Pixels, Functions
VARIABLES s, l, pic
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1 /\ pic = <<>>
Blank(w, h, bg) == [y \in 1..h |-> [x \in 1..w |-> bg]]
At(p, x, y) == p[y + 1][x + 1]
(* --- reading the saved bitmap ------------------------------------------- *)
White == {9, 10, 13, 32}
RECURSIVE Skip(_, _), Num(_, _, _)
Skip(b, i) == IF i <= Len(b) /\ b[i] \in White THEN Skip(b, i + 1) ELSE i
(* <<value, index of the byte after the last digit, any digit at all>> *)
Num(b, i, n) == IF i <= Len(b) /\ b[i] \in 48..57 /\ n < 100000 THEN Num(b, i + 1, 10 * n + b[i] - 48) ELSE <<n, i>>
Channels(kind) == IF kind = 54 THEN 3 ELSE 1
Bitmap(b) ==
  LET i1 == Skip(b, 3)  n1 == Num(b, i1, 0)
      i2 == Skip(b, n1[2])  n2 == Num(b, i2, 0)
      i3 == Skip(b, n2[2])  n3 == Num(b, i3, 0)
      k == b[2]
      at == IF k = 52 THEN n2[2] + 1 ELSE n3[2] + 1
      head == /\ Len(b) >= 8 /\ b[1] = 80 /\ k \in {52, 53, 54} /\ i1 > 3 /\ n1[2] > i1 /\ i2 > n1[2] /\ n2[2] > i2
              /\ (k # 52 => i3 > n2[2] /\ n3[2] > i3 /\ n3[1] = 255)
              /\ at - 1 <= Len(b) /\ b[at - 1] \in White
      w == n1[1]  h == n2[1]  rest == Len(b) - at + 1
      px == [y \in 1..h |-> [x \in 1..w |->
              IF k = 52 THEN <<(b[at + (y - 1) * RowBytes(w, 8) + (x - 1) \div 8] \div P2(7 - ((x - 1) % 8))) % 2>>
              ELSE [c \in 1..Channels(k) |-> b[at + ((y - 1) * w + x - 1) * Channels(k) + c - 1]]]]
  IN IF ~head THEN [good |-> FALSE]
     ELSE IF rest # h * (IF k = 52 THEN RowBytes(w, 8) ELSE w * Channels(k)) THEN [good |-> FALSE]
     ELSE [good |-> TRUE, kind |-> k, w |-> w, h |-> h, px |-> px]
(* --- C16 ---------------------------------------------------------------- *)
New(e) == << <<"background-everywhere", e.pic = Blank(e.w, e.h, e.bg)>> >>
SetPx(e) ==
  << <<"accepted", Ok(e.res)>>,
     <<"reads-back-what-was-set", e.a = -1 => At(e.pic, e.x, e.y) = e.v>>,
     <<"rounded-mix", e.a >= 0 => \A c \in 1..Len(e.v) :
         2 * Abs(e.d * (At(e.pic, e.x, e.y)[c] - At(pic, e.x, e.y)[c])
                 - (e.v[c] - At(pic, e.x, e.y)[c]) * e.a) <= e.d>>,
     <<"other-pixels-untouched", \A y \in 1..Len(pic) : \A x \in 1..Len(pic[1]) :
         (x # e.x + 1 \/ y # e.y + 1) => e.pic[y][x] = pic[y][x]>> >>
Save(e) ==
  LET m == Bitmap(e.bytes) IN
  << <<"accepted", Ok(e.res)>>, <<"well-formed-bitmap", m.good>>,
     <<"bitmap-kind-and-size", m.good => m.kind = e.kind /\ m.w = Len(pic[1]) /\ m.h = Len(pic)>>,
     <<"bitmap-pixels", (m.good /\ m.w = Len(pic[1]) /\ m.h = Len(pic)) => m.px = pic>>,
     <<"saving-changes-nothing", e.pic = pic>> >>
(* --- C17 ---------------------------------------------------------------- *)
Paint(px) == {<<p[1], p[2]>> : p \in Range(px)}
Colours(px) == {p[3] : p \in Range(px)}
Line(e) ==
  << <<"accepted", Ok(e.res)>>,
     <<"line-in-the-given-colour", Ok(e.res) => Colours(e.res.v) \subseteq {e.fg}>>,
     <<"is-the-line", Ok(e.res) => IsLineOn(Paint(e.res.v), e.a, e.b, <<0, 0>>, <<e.w - 1, e.h - 1>>)>> >>
(* too long to be listed: the number of pixels, and those of some of the steps *)
LongLine(e) ==
  << <<"accepted", Ok(e.res)>>,
     <<"line-in-the-given-colour", Ok(e.res) => e.res.v.fine>>,
     <<"is-the-line", Ok(e.res) =>
         /\ e.res.v.n = 1 + MaxP(Abs(e.b[1] - e.a[1]), Abs(e.b[2] - e.a[2]))
         /\ \A i \in 1..Len(e.res.v.at) : Len(e.res.v.at[i]) = 1 /\ OnLine(e.res.v.at[i][1], e.a, e.b)>> >>
Stroke(e) ==
  << <<"accepted", Ok(e.res)>>,
     <<"line-in-the-given-colour", Ok(e.res) => Colours(e.res.v) \subseteq {e.fg}>>,
     <<"each-side-is-a-line", \A i \in 1..Len(e.pts) :
         Ok(e.sides[i]) /\ IsLineOn(Paint(e.sides[i].v), e.pts[i], e.pts[IF i = Len(e.pts) THEN 1 ELSE i + 1],
                                  <<0, 0>>, <<e.w - 1, e.h - 1>>)>>,
     <<"exactly-the-sides", Ok(e.res) /\ (\A i \in 1..Len(e.pts) : Ok(e.sides[i]))
         => Paint(e.res.v) = UNION {Paint(e.sides[i].v) : i \in 1..Len(e.pts)}>> >>
(* --- C18 ---------------------------------------------------------------- *)
Fill(e) ==
  LET S == Paint(e.res.v)
      bad == {p \in (0..(e.w - 1)) \X (0..(e.h - 1)) :
               LET m == RowMarks(e.polys, p[2]) a == Inside(m, p[1]) IN
               (a = "yes" /\ p \notin S) \/ (a = "no" /\ p \in S)}
  IN << <<"accepted", Ok(e.res)>>,
        <<"filled-in-the-given-colour", Ok(e.res) => Colours(e.res.v) \subseteq {e.fg}>>,
        <<"exactly-the-inside", Ok(e.res) => bad = {}>> >>
Tiling(e) ==
  LET T == [i \in 1..Len(e.tiles) |-> Paint(e.tiles[i].v)]
      fine == Ok(e.res) /\ \A i \in 1..Len(e.tiles) : Ok(e.tiles[i])
  IN << <<"accepted", fine>>,
        <<"no-overlap", fine => \A i, j \in 1..Len(T) : i < j => T[i] \cap T[j] = {}>>,
        <<"each-pixel-painted-once", fine => Colours(e.res.v) \subseteq {e.fg}>>,
        <<"no-gap", fine => UNION {T[i] : i \in 1..Len(T)} = Paint(e.res.v)>> >>
(* --- C19 ---------------------------------------------------------------- *)
Near(p, q, tol) == \A y \in 1..Len(p) : \A x \in 1..Len(p[1]) : \A c \in 1..Len(p[y][x]) :
                     Abs(p[y][x][c] - q[y][x][c]) <= tol
Aa(e) ==
  << <<"accepted", Ok(e.res) /\ Ok(e.rev)>>,
     <<"opacities", Ok(e.res) /\ e.a # e.b => \A y \in 1..Len(e.res.v) : \A x \in 1..Len(e.res.v[1]) :
         LET o == Opacity(<<x - 1, y - 1>>, e.a, e.b) IN
         \A c \in 1..Len(e.bg) : Mixed(e.res.v[y][x][c], e.bg[c], e.fg[c], o[1], o[2])>>,
     <<"untouched-elsewhere", Ok(e.res) => \A y \in 1..Len(e.res.v) : \A x \in 1..Len(e.res.v[1]) :
         (IF e.a = e.b THEN <<x - 1, y - 1>> # e.a ELSE Opacity(<<x - 1, y - 1>>, e.a, e.b)[1] = 0)
           => e.res.v[y][x] = e.bg>>,
     <<"same-in-either-direction", Ok(e.res) /\ Ok(e.rev) => Near(e.res.v, e.rev.v, 1)>> >>
AaF(e) ==
  << <<"accepted", Ok(e.res) /\ Ok(e.rev)>>,
     <<"opacities", Ok(e.res) => \A y \in 1..Len(e.res.v) : \A x \in 1..Len(e.res.v[1]) :
         LET o == OpacityF(<<x - 1, y - 1>>, e.a, e.b, e.q) IN
         /\ \A c \in 1..Len(e.bg) : Mixed(e.res.v[y][x][c], e.bg[c], e.fg[c], o[1], o[2])
         /\ o[1] = 0 => e.res.v[y][x] = e.bg>>,
     <<"same-in-either-direction", Ok(e.res) /\ Ok(e.rev) => Near(e.res.v, e.rev.v, 1)>> >>
AaStroke(e) ==
  << <<"accepted", Ok(e.res) /\ Ok(e.ref)>>,
     <<"exactly-the-sides", Ok(e.res) /\ Ok(e.ref) => Near(e.res.v, e.ref.v, 2)>> >>
Clauses(e) ==
  IF e.op = "new" THEN New(e) ELSE IF e.op = "set" THEN SetPx(e) ELSE IF e.op = "save" THEN Save(e)
  ELSE IF e.op = "line" THEN Line(e) ELSE IF e.op = "longline" THEN LongLine(e) ELSE IF e.op = "stroke" THEN Stroke(e)
  ELSE IF e.op = "fill" THEN Fill(e) ELSE IF e.op = "tiling" THEN Tiling(e)
  ELSE IF e.op = "aa" THEN Aa(e) ELSE IF e.op = "aaf" THEN AaF(e) ELSE AaStroke(e)
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ pic' = (IF Sess[l].op \in {"new", "set", "save"} THEN Sess[l].pic ELSE pic)
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l, pic>>
=============================================================================
