------------------------------ MODULE T_Vector ------------------------------
(* Judging histories of vector canvases: every saved program is executed and *)
(* the marks it paints are compared with the drawing requested by the calls. *)
EXTENDS Judge, PS, Render
VARIABLES s, l, st
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1 /\ st = <<>>
AnyInk == <<>>
None == <<>>
(* a canvas: marks wanted, pen, and the box of everything drawn so far        *)
Blank(bg) == [want |-> <<>>, ink |-> AnyInk, width |-> "1.0", dash |-> <<>>, off |-> "0.0", box |-> <<>>, kept |-> <<>>, bg |-> bg]
Join(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
              ELSE <<Min2(a[1], b[1]), Min2(a[2], b[2]), Max2(a[3], b[3]), Max2(a[4], b[4])>>
Xs(p) == {p[i][1] : i \in 1..Len(p)}
Ys(p) == {p[i][2] : i \in 1..Len(p)}
Mn(S) == CHOOSE x \in S : \A y \in S : x <= y
Mx(S) == CHOOSE x \in S : \A y \in S : x >= y
Around(p) == <<Mn(Xs(p)), Mn(Ys(p)), Mx(Xs(p)), Mx(Ys(p))>>
Outline(p) == [i \in 1..Len(p) |-> Seg(IF i = 1 THEN "m" ELSE "l", p[i])]
Closing == <<Seg("c", <<>>)>>
Rounded(p, r) ==
  LET mid == <<(p[1][1] + p[2][1]) \div 2, (p[1][2] + p[2][2]) \div 2>>
      n == Len(p)
      c(i) == p[(i % n) + 1]                 \* corners p2, p3, ..., p1
      to(i) == IF i = n THEN mid ELSE c(i + 1) IN
  <<Seg("m", mid)>> \o [i \in 1..n |-> Seg("arcto", c(i) \o to(i) \o <<r>>)] \o Closing
Wanted(k, path, ink, c) == [k |-> k, path |-> path, ink |-> ink, width |-> c.width, dash |-> c.dash, off |-> c.off,
                            at |-> <<>>, font |-> "", size |-> 0, text |-> <<>>, w |-> 0, h |-> 0, n |-> 0, sx |-> 0, sy |-> 0]
(* shapes: filled with their fill, then stroked with their stroke             *)
Shape(c, path, fill, stroke) ==
  [c EXCEPT !.want = @ \o (IF fill = None THEN <<>> ELSE <<Wanted("fill", path, fill, c)>>)
                       \o (IF stroke = None THEN <<>> ELSE <<Wanted("stroke", path, stroke, c)>>),
            !.ink = IF stroke # None THEN stroke ELSE IF fill # None THEN fill ELSE @]
Boxed(c, b) == [c EXCEPT !.box = Join(@, b)]
Anchored(e, c) ==      \* where the text's origin goes so that its anchor is at the position
  LET w == TextW(Len(e.text), e.size)  h == TextH(e.size)  a == e.anchor IN
  <<e.pos[1] - (IF a \in {"l", "tl", "bl"} THEN 0 ELSE IF a \in {"r", "tr", "br"} THEN w ELSE w \div 2),
    e.pos[2] - (IF a \in {"b", "bl", "br"} THEN 0 ELSE IF a \in {"t", "tl", "tr"} THEN h ELSE h \div 2)>>
Draw(c, e) ==
  CASE e.op = "ink" -> [c EXCEPT !.ink = e.ink]
    [] e.op = "width" -> [c EXCEPT !.width = e.w]
    [] e.op = "dash" -> [c EXCEPT !.dash = e.dash, !.off = e.off]
    [] e.op = "circle" -> Boxed(Shape(c, <<Seg("arc", <<e.c[1], e.c[2], e.r, 0, 360 * U>>)>> \o Closing, e.fill, e.stroke),
                                <<e.c[1] - e.r, e.c[2] - e.r, e.c[1] + e.r, e.c[2] + e.r>>)
    [] e.op = "polyline" -> IF e.pts = <<>> THEN c ELSE
         Boxed([Shape(c, Outline(e.pts), None, IF e.stroke = None THEN <<"ink">> ELSE e.stroke) EXCEPT
                  !.want[Len(c.want) + 1].ink = IF e.stroke = None THEN c.ink ELSE e.stroke,
                  !.ink = IF e.stroke = None THEN c.ink ELSE e.stroke], Around(e.pts))
    [] e.op = "polygon" -> IF e.pts = <<>> THEN c ELSE
         Boxed(Shape(c, Outline(e.pts) \o Closing, e.fill, e.stroke), Around(e.pts))
    [] e.op = "rounded" -> Boxed(Shape(c, Rounded(e.pts, e.r), e.fill, e.stroke), Around(e.pts))
    [] e.op = "text" -> [c EXCEPT !.want = Append(@, [Wanted("show", <<>>, c.ink, c) EXCEPT !.at = Anchored(e, c),
                           !.text = e.text, !.font = e.font, !.size = e.size])]
    [] e.op = "image" -> Boxed([c EXCEPT !.want = Append(@, [Wanted("image", <<>>, AnyInk, c) EXCEPT !.at = e.pos,
                           !.text = e.data, !.w = e.w, !.h = e.h, !.n = e.n, !.sx = e.w * e.scale, !.sy = e.h * e.scale])],
                         <<e.pos[1], e.pos[2], e.pos[1] + e.w * e.scale, e.pos[2] + e.h * e.scale>>)
    [] e.op = "resetbbox" -> [c EXCEPT !.box = <<>>]
    [] e.op = "keep" -> [c EXCEPT !.kept = c.box]      \* b = canvas.bbox
    [] e.op = "restore" -> [c EXCEPT !.box = c.kept]   \* canvas.bbox = b
Apply(e) == CASE e.op = "new" -> Append(st, Blank(e.bg))
              [] e.op = "copy" -> Append(st, st[e.i])
              [] e.op \in {"save", "export", "animate", "wrong"} -> st
              [] OTHER -> [st EXCEPT ![e.i] = Draw(st[e.i], e)]
-----------------------------------------------------------------------------
SameInk(want, got) == want = AnyInk \/ want = got
IsBg(c, L) == c.bg # None /\ L # <<>>
Body(c, L) == IF IsBg(c, L) THEN Tail(L) ELSE L
Only(L, ks) == SelectSeq(L, LAMBDA m : m.k \in ks)
Shapes == {"fill", "stroke"}
PairUp(W, L, P(_, _)) == \A i \in 1..Min2(Len(W), Len(L)) : P(W[i], L[i])
SamePen(w, m) == w.width = m.width /\ w.dash = m.dash /\ w.off = m.off
(* images are drawn in their own coordinates, placed in those of the page      *)
Placed(w, m, ctm) == /\ m.ctm[1] * U = ctm[1] * w.sx /\ m.ctm[2] * U = ctm[2] * w.sy
                     /\ m.ctm[3] = ctm[3] + ctm[1] * w.at[1] /\ m.ctm[4] = ctm[4] + ctm[2] * w.at[2]
Upright(w, m) == m.w = w.w * U /\ m.h = w.h * U /\ m.n = w.n
                 /\ m.mat = <<w.w * U, 0, 0, 0 - w.h * U, 0, w.h * U>>
Backdrop(m, box) ==
  LET p == m.path
      q == [i \in 1..4 |-> p[i].a]
      corner(a) == a[1] \in {box[1], box[3]} /\ a[2] \in {box[2], box[4]} IN
  /\ m.k = "fill" /\ m.ctm = <<U, U, 0, 0>> /\ Len(p) \in 4..5
  /\ p[1].k = "m" /\ \A i \in 2..4 : p[i].k = "l"
  /\ \A i \in 1..4 : corner(q[i])
  /\ {q[i] : i \in 1..4} = {<<x, y>> : x \in {box[1], box[3]}, y \in {box[2], box[4]}}
  /\ (box[1] # box[3] /\ box[2] # box[4]) => (q[1][1] # q[3][1] /\ q[1][2] # q[3][2])
Page0(c) == IF c.box = <<>> THEN <<0, 0, 0, 0>> ELSE c.box
Grown(b, m) == <<b[1] - m, b[2] - m, b[3] + m, b[4] + m>>
Saved(e, c) ==
  LET R == Run(Start, e.prog)
      L == R.log  B == Body(c, L)
      ctm == <<R.g.sx, R.g.sy, R.g.tx, R.g.ty>>
      W == c.want
      ws == Only(W, Shapes)  ls == Only(B, Shapes)
      wt == Only(W, {"show"})  lt == Only(B, {"show"})
      wi == Only(W, {"image"})  li == Only(B, {"image"})
      b == Page0(c)
      big == Max2(b[3] - b[1], b[4] - b[2]) IN
  IF e.err # "" THEN <<<<"saves", FALSE>>>>
  ELSE IF R.bad # "" THEN <<<<"program-executes", FALSE>>>>
  ELSE
  << <<"c20-kinds-in-order", [i \in 1..Len(W) |-> W[i].k] = [i \in 1..Len(B) |-> B[i].k]>>,
     <<"c20-outlines", PairUp(ws, ls, LAMBDA w, m : w.path = m.path)>>,
     <<"c20-ink", PairUp(W, B, LAMBDA w, m : SameInk(w.ink, m.ink))>>,
     <<"c20-pen", PairUp(ws, ls, LAMBDA w, m : w.k = "stroke" => SamePen(w, m))>>,
     <<"c20-balanced", R.saved = <<>> /\ R.ops = <<>>>>,
     <<"c20-same-coordinates", \A i \in 1..Len(B) : B[i].k # "image" => B[i].ctm = ctm>>,
     <<"c21-header", e.head>>,
     <<"c21-box", e.box = IF e.size = NoNum THEN Grown(b, e.margin) ELSE <<0, 0, e.size, e.size>>>>,
     <<"c21-unscaled", e.size = NoNum => ctm = <<U, U, 0, 0>>>>,
     <<"c21-fitted", e.size # NoNum => /\ ctm[1] = ctm[2] /\ ctm[1] > 0
          /\ ctm[1] * big >= U * (e.size - 2 * e.margin) /\ ctm[1] * big <= U * (e.size - e.margin)>>,
     <<"c21-centred", e.size # NoNum => /\ 2 * ctm[3] + ctm[1] * (b[1] + b[3]) = U * e.size
                                        /\ 2 * ctm[4] + ctm[2] * (b[2] + b[4]) = U * e.size>>,
     <<"c21-background", c.bg # None => (L # <<>> /\ Backdrop(L[1], e.box) /\ L[1].ink = c.bg)>>,
     <<"c21-text", Len(wt) = Len(lt) /\ PairUp(wt, lt, LAMBDA w, m : w.text = m.text /\ w.font = m.font /\ w.size = m.size /\ w.at = m.at)>>,
     <<"c21-image-samples", Len(wi) = Len(li) /\ PairUp(wi, li, LAMBDA w, m : w.text = m.text /\ Upright(w, m))>>,
     <<"c21-image-placed", PairUp(wi, li, LAMBDA w, m : Placed(w, m, ctm))>> >>
-----------------------------------------------------------------------------
(* images: what the converter was given is a program saved from the canvas    *)
Rendered(e) == << <<"c35-device", e.dev = e.devwant>>, <<"c35-one-page-cropped", e.flags>>,
                  <<"c35-status", e.status = e.statuswant>>, <<"c35-nothing-left", e.clean>> >>
Exported(e, c) == IF e.err # "" THEN << <<"exports", FALSE>> >> ELSE Rendered(e) \o Saved(e, c)
(* animations: one frame per canvas, all over the same box                    *)
RECURSIVE Union(_, _)
Union(fs, i) == IF i = 0 THEN <<>> ELSE Join(Union(fs, i - 1), st[fs[i]].box)
Failed(q) == LET r == TLCEval(q) IN SelectSeq(r, LAMBDA c : ~c[2])
Animated(e) ==
  LET n == Len(e.frames)  u == Union(e.frames, n) IN
  IF e.err # "" THEN << <<"animates", FALSE>> >>
  ELSE Rendered(e) \o
       << <<"c35-all-frames", Len(e.progs) = n>>,
          <<"c35-delay", e.delay = e.delaywant /\ e.loop = "0">>,
          <<"c35-encoding", Even(u)>>,
          <<"c35-frames-in-order-over-one-box", Len(e.progs) = n => \A i \in 1..n :
               Failed(Saved(TLCEval(e.progs[i]), TLCEval([st[e.frames[i]] EXCEPT !.box = Enlarged(u)]))) = <<>> >> >>
Prop == IOEnv.VT_PROP
Mine(c) == Prop = "c35" \/ c \in {"saves", "program-executes", "accepted"} \/ SubSeq(c, 1, 3) = Prop
Clauses(e) == SelectSeq(IF e.op = "save" THEN Saved(e, st[e.i])
                        ELSE IF e.op = "export" THEN Exported(e, st[e.i]) ELSE IF e.op = "animate" THEN Animated(e)
                        ELSE IF e.op = "wrong" THEN << <<"c20-refused", e.err # "">> >>
                        ELSE << <<"accepted", e.err = "">> >>, LAMBDA c : Mine(c[1]))
Why(e) == IF e.op = "save" THEN Run(Start, e.prog).bad ELSE ""
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ st' = TLCEval(Apply(Sess[l]))
         /\ RunClauses(s, l, Clauses(Sess[l]), Why(Sess[l]))
JSpec == JInit /\ [][JNext]_<<s, l, st>>
=============================================================================
