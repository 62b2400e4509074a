-------------------------------- MODULE PS --------------------------------
(* An interpreter of the PostScript programs that vector drawings are saved  *)
(* as: operand stack, dictionary, graphics state with save/restore, and the  *)
(* sequence of marks painted on the page.                                    *)
(* Tokens and operands are records [t, f, x, v, b, p]: kind, number as a     *)
(* multiple of 1/64, number as canonical text, name, bytes, contents.        *)
EXTENDS Integers, Sequences, SequencesExt, TLC
U == 64
NoNum == 0 - 2147483647
Tok(t) == [t |-> t, f |-> 0, x |-> "", v |-> "", b |-> <<>>, p |-> <<>>]
Num(n) == [Tok("num") EXCEPT !.f = n, !.x = "?"]
Bool(b) == [Tok("bool") EXCEPT !.v = IF b THEN "true" ELSE "false"]
Black == <<"0.0", "0.0", "0.0">>
(* graphics state: current transformation x -> sx*x + tx (translations in    *)
(* units of 1/4096), path in user coordinates, current point, pen            *)
Page == [sx |-> U, sy |-> U, tx |-> 0, ty |-> 0, path |-> <<>>, at |-> <<>>, ink |-> Black,
         width |-> "1.0", dash |-> <<>>, off |-> "0.0", font |-> "", size |-> 0, ext |-> <<>>]
Start == [ops |-> <<>>, g |-> Page, saved |-> <<>>, d |-> [n \in {} |-> <<>>], log |-> <<>>, bad |-> ""]
Fail(S, why) == IF S.bad = "" THEN [S EXCEPT !.bad = why] ELSE S

N(S) == Len(S.ops)
A(S, i) == S.ops[Len(S.ops) - i]             \* i-th operand from the top, from 0
Drop(S, n) == [S EXCEPT !.ops = SubSeq(@, 1, Len(@) - n)]
Push(S, v) == [S EXCEPT !.ops = Append(@, v)]
Nums(S, n) == \A i \in 0..(n - 1) : A(S, i).t = "num"
Exact(S, n) == \A i \in 0..(n - 1) : A(S, i).f # NoNum
Seg(k, a) == [k |-> k, a |-> a]
Quot(a, b) == IF b < 0 THEN (0 - a) \div (0 - b) ELSE a \div b     \* exact in what is judged
MoveTo(g, x, y) ==
  LET p == IF g.path # <<>> /\ g.path[Len(g.path)].k = "m" THEN SubSeq(g.path, 1, Len(g.path) - 1) ELSE g.path IN
  [g EXCEPT !.path = Append(p, Seg("m", <<x, y>>)), !.at = <<x, y>>]
LineTo(g, x, y) == [g EXCEPT !.path = Append(@, Seg("l", <<x, y>>)), !.at = <<x, y>>]
Clear(g) == [g EXCEPT !.path = <<>>, !.at = <<>>, !.ext = <<>>]
(* a path under construction is not carried over to other coordinates        *)
Strand(g) == IF g.path = <<>> THEN g ELSE [g EXCEPT !.path = Append(@, Seg("stranded", <<>>))]
Mark(k, g) == [k |-> k, path |-> g.path, ink |-> g.ink, width |-> g.width, dash |-> g.dash, off |-> g.off,
               ctm |-> <<g.sx, g.sy, g.tx, g.ty>>, at |-> g.at, font |-> g.font, size |-> g.size,
               text |-> <<>>, w |-> 0, h |-> 0, n |-> 0, mat |-> <<>>]
(* extent of a text in the model: half the size per character, three         *)
(* quarters of the size high                                                  *)
TextW(n, size) == n * (size \div 2)
TextH(size) == 3 * (size \div 4)
RECURSIVE Rotate(_, _)
Rotate(q, j) == IF j = 0 \/ Len(q) < 2 THEN q
                ELSE IF j > 0 THEN Rotate(<<q[Len(q)]>> \o SubSeq(q, 1, Len(q) - 1), j - 1)
                ELSE Rotate(SubSeq(q, 2, Len(q)) \o <<q[1]>>, j + 1)
(* number of operands each operator takes, and how many of those (the         *)
(* topmost) are numbers that are calculated with                              *)
Needs == [bind |-> <<1, 0, 0>>, def |-> <<2, 0, 0>>, moveto |-> <<2, 2, 2>>, rmoveto |-> <<2, 2, 2>>,
  lineto |-> <<2, 2, 2>>, rlineto |-> <<2, 2, 2>>, setlinewidth |-> <<1, 1, 0>>, setgray |-> <<1, 1, 0>>,
  setrgbcolor |-> <<3, 3, 0>>, gsave |-> <<0, 0, 0>>, grestore |-> <<0, 0, 0>>, stroke |-> <<0, 0, 0>>,
  fill |-> <<0, 0, 0>>, newpath |-> <<0, 0, 0>>, closepath |-> <<0, 0, 0>>, arc |-> <<5, 5, 5>>,
  arcto |-> <<5, 5, 5>>, arct |-> <<5, 5, 5>>, repeat |-> <<2, 0, 0>>, pop |-> <<1, 0, 0>>,
  setdash |-> <<2, 1, 0>>, setlinejoin |-> <<1, 1, 1>>, setlinecap |-> <<1, 1, 1>>, translate |-> <<2, 2, 2>>,
  scale |-> <<2, 2, 2>>, image |-> <<5, 0, 0>>, colorimage |-> <<7, 1, 1>>, findfont |-> <<1, 0, 0>>,
  scalefont |-> <<2, 1, 1>>, setfont |-> <<1, 0, 0>>, charpath |-> <<2, 0, 0>>, flattenpath |-> <<0, 0, 0>>,
  pathbbox |-> <<0, 0, 0>>, show |-> <<1, 0, 0>>, dup |-> <<1, 0, 0>>, exch |-> <<2, 0, 0>>, roll |-> <<2, 2, 2>>,
  sub |-> <<2, 2, 2>>, add |-> <<2, 2, 2>>, mul |-> <<2, 2, 2>>, div |-> <<2, 2, 2>>, neg |-> <<1, 1, 1>>,
  showpage |-> <<0, 0, 0>>]
Plain(g) == g.sx = g.sy
Calc(op, a, b) == CASE op = "sub" -> a - b [] op = "add" -> a + b [] op = "mul" -> (a * b) \div U
                    [] op = "div" -> Quot(a * U, b)
Image(S, n) ==      \* operands: w h 8 [matrix] {data} (false 3)
  LET T == IF n = 3 THEN Drop(S, 2) ELSE S
      w == A(T, 4)  h == A(T, 3)  bits == A(T, 2)  m == A(T, 1)  pr == A(T, 0) IN
  IF ~(w.t = "num" /\ h.t = "num" /\ bits.t = "num" /\ m.t = "arr" /\ pr.t = "proc") THEN Fail(S, "image operands")
  ELSE IF ~(Len(pr.p) = 1 /\ pr.p[1].t = "hex" /\ bits.f = 8 * U) THEN Fail(S, "image data")
  ELSE [Drop(T, 5) EXCEPT !.log = Append(@, [Mark("image", S.g) EXCEPT !.text = pr.p[1].b, !.w = w.f, !.h = h.f,
          !.n = n, !.mat = [i \in 1..Len(m.p) |-> m.p[i].f]])]
RECURSIVE Run(_, _), Times(_, _, _), Op(_, _)
Step(S, k) ==
  IF S.bad # "" THEN S
  ELSE IF k.t # "name" THEN Push(S, k)
  ELSE IF k.v \in DOMAIN S.d THEN Run(S, S.d[k.v])
  ELSE IF k.v \in {"true", "false"} THEN Push(S, Bool(k.v = "true"))
  ELSE IF k.v \notin DOMAIN Needs THEN Fail(S, "undefined operator " \o k.v)
  ELSE IF N(S) < Needs[k.v][1] THEN Fail(S, "missing operands of " \o k.v)
  ELSE IF ~Nums(S, Needs[k.v][2]) THEN Fail(S, "operands of " \o k.v)
  ELSE IF ~Exact(S, Needs[k.v][3]) THEN Fail(S, "inexact operands of " \o k.v)
  ELSE Op(S, k.v)
Run(S, toks) == FoldLeft(Step, S, toks)
Times(S, p, n) == IF n <= 0 THEN S ELSE Times(Run(S, p), p, n - 1)
SetG(S, n, g) == [Drop(S, n) EXCEPT !.g = g]
Op(S, op) ==
  LET g == S.g  a == IF N(S) > 0 THEN A(S, 0) ELSE Tok("none")  b == IF N(S) > 1 THEN A(S, 1) ELSE Tok("none")
      x == b.f  y == a.f IN
  CASE op = "bind" -> IF a.t = "proc" THEN S ELSE Fail(S, "bind")
    [] op = "def" -> IF b.t = "lit" /\ a.t = "proc" THEN [Drop(S, 2) EXCEPT !.d = (b.v :> a.p) @@ @] ELSE Fail(S, "def")
    [] op = "pop" -> Drop(S, 1)
    [] op = "dup" -> Push(S, a)
    [] op = "exch" -> Push(Push(Drop(S, 2), a), b)
    [] op = "roll" -> LET n == x \div U  T == Drop(S, 2) IN
         IF n < 0 \/ n > N(T) THEN Fail(S, "roll")
         ELSE [T EXCEPT !.ops = SubSeq(@, 1, Len(@) - n) \o Rotate(SubSeq(@, Len(@) - n + 1, Len(@)), y \div U)]
    [] op \in {"sub", "add", "mul", "div"} -> IF op = "div" /\ y = 0 THEN Fail(S, "div") ELSE Push(Drop(S, 2), Num(Calc(op, x, y)))
    [] op = "neg" -> Push(Drop(S, 1), Num(0 - y))
    [] op = "repeat" -> IF a.t = "proc" /\ b.t = "num" THEN Times(Drop(S, 2), a.p, b.f \div U) ELSE Fail(S, "repeat")
    [] op \in {"setlinejoin", "setlinecap"} -> Drop(S, 1)
    [] op = "setlinewidth" -> SetG(S, 1, [g EXCEPT !.width = a.x])
    [] op = "setgray" -> SetG(S, 1, [g EXCEPT !.ink = <<a.x, a.x, a.x>>])
    [] op = "setrgbcolor" -> SetG(S, 3, [g EXCEPT !.ink = <<A(S, 2).x, b.x, a.x>>])
    [] op = "setdash" -> IF b.t = "arr" THEN SetG(S, 2, [g EXCEPT !.dash = [i \in 1..Len(b.p) |-> b.p[i].x], !.off = a.x]) ELSE Fail(S, "setdash")
    [] op = "gsave" -> [S EXCEPT !.saved = Append(@, g)]
    [] op = "grestore" -> IF S.saved = <<>> THEN Fail(S, "unbalanced grestore")
                          ELSE [S EXCEPT !.g = S.saved[Len(S.saved)], !.saved = SubSeq(@, 1, Len(@) - 1)]
    [] op = "newpath" -> SetG(S, 0, Clear(g))
    [] op = "moveto" -> SetG(S, 2, MoveTo(g, x, y))
    [] op = "lineto" -> IF g.at = <<>> THEN Fail(S, "no current point") ELSE SetG(S, 2, LineTo(g, x, y))
    [] op = "rmoveto" -> IF g.at = <<>> THEN Fail(S, "no current point") ELSE SetG(S, 2, MoveTo(g, g.at[1] + x, g.at[2] + y))
    [] op = "rlineto" -> IF g.at = <<>> THEN Fail(S, "no current point") ELSE SetG(S, 2, LineTo(g, g.at[1] + x, g.at[2] + y))
    [] op = "arc" -> \* joined by a line to the current point, if any
         LET c == <<A(S, 4).f, A(S, 3).f, A(S, 2).f, x, y>> IN
         SetG(S, 5, [g EXCEPT !.path = Append(@, Seg(IF g.at = <<>> THEN "arc" ELSE "line-arc", c)), !.at = <<c[1] + c[3], c[2]>>])
    [] op \in {"arcto", "arct"} ->
         IF g.at = <<>> THEN Fail(S, "no current point")
         ELSE LET c == <<A(S, 4).f, A(S, 3).f, A(S, 2).f, x, y>>
                  T == SetG(S, 5, [g EXCEPT !.path = Append(@, Seg("arcto", c)), !.at = <<c[1], c[2]>>]) IN
              IF op = "arct" THEN T ELSE Push(Push(Push(Push(T, Num(0)), Num(0)), Num(0)), Num(0))
    [] op = "closepath" -> IF g.path = <<>> THEN S ELSE SetG(S, 0, [g EXCEPT !.path = Append(@, Seg("c", <<>>))])
    [] op \in {"fill", "stroke"} -> [S EXCEPT !.log = Append(@, Mark(op, g)), !.g = Clear(g)]
    [] op = "translate" -> SetG(S, 2, [Strand(g) EXCEPT !.tx = @ + g.sx * x, !.ty = @ + g.sy * y])
    [] op = "scale" -> IF (g.sx * x) % U # 0 \/ (g.sy * y) % U # 0 THEN Fail(S, "inexact scale")
                       ELSE SetG(S, 2, [Strand(g) EXCEPT !.sx = (@ * x) \div U, !.sy = (@ * y) \div U])
    [] op = "image" -> Image(S, 1)
    [] op = "colorimage" -> IF b.t = "bool" /\ b.v = "false" /\ a.f = 3 * U THEN Image(S, 3) ELSE Fail(S, "colorimage")
    [] op = "findfont" -> IF a.t = "lit" THEN Push(Drop(S, 1), [Tok("font") EXCEPT !.v = a.v, !.f = U]) ELSE Fail(S, "findfont")
    [] op = "scalefont" -> IF b.t = "font" THEN Push(Drop(S, 2), [b EXCEPT !.f = (@ * y) \div U]) ELSE Fail(S, "scalefont")
    [] op = "setfont" -> IF a.t = "font" THEN SetG(S, 1, [g EXCEPT !.font = a.v, !.size = a.f]) ELSE Fail(S, "setfont")
    [] op = "charpath" -> \* the outline of a text, seen through its extent only
         IF ~(b.t = "str" /\ a.t = "bool") \/ g.at = <<>> \/ g.font = "" THEN Fail(S, "charpath")
         ELSE LET e == <<g.at[1], g.at[2], g.at[1] + TextW(Len(b.b), g.size), g.at[2] + TextH(g.size)>> IN
              SetG(S, 2, IF Len(g.path) = 1 /\ g.path[1].k = "m" THEN [g EXCEPT !.ext = e, !.path = <<Seg("text", e)>>]
                         ELSE [g EXCEPT !.ext = <<>>, !.path = Append(@, Seg("text", e))])
    [] op = "flattenpath" -> S
    [] op = "pathbbox" -> IF g.ext = <<>> THEN Fail(S, "extent of a text mixed with another outline")
                          ELSE Push(Push(Push(Push(S, Num(g.ext[1])), Num(g.ext[2])), Num(g.ext[3])), Num(g.ext[4]))
    [] op = "show" -> IF a.t # "str" \/ g.at = <<>> \/ g.font = "" THEN Fail(S, "show")
                      ELSE SetG([S EXCEPT !.log = Append(@, [Mark("show", g) EXCEPT !.text = a.b])], 1,
                                MoveTo(g, g.at[1] + TextW(Len(a.b), g.size), g.at[2]))
    [] op = "showpage" -> S
=============================================================================
