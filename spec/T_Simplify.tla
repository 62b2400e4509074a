---------------------------- MODULE T_Simplify ----------------------------
(* Judging recorded simplifications (C05, C06).  Inputs are integers over a *)
(* common denominator: the rounded path is Round(x, m).                     *)
EXTENDS Judge, Chain
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1

Rounded(e) == TLCEval([i \in 1..Len(e.pts) |-> <<Round(e.pts[i][1], e.m), Round(e.pts[i][2], e.m)>>])
Same(P, Q) ==
  LET ends(X) == TLCEval(LET g == Segs(X) ln == TLCEval([i \in g |-> LineOf(X[i], X[i + 1])]) IN
        [plus |-> {<<i, <<ln[i], X[i + 1]>>>> : i \in g},
         minus |-> {<<i, <<ln[i], X[i]>>>> : i \in g}])
      p == ends(P)  q == ends(Q)
      keys == {x[2] : x \in p.plus \cup p.minus \cup q.plus \cup q.minus}
      Count(S, key) == Cardinality({x \in S : x[2] = key})
  IN \A key \in keys : Count(p.plus, key) - Count(p.minus, key) = Count(q.plus, key) - Count(q.minus, key)

Open(e) == LET R == Rounded(e) o == e.res.v d == Dedup(R) IN
  IF ~Ok(e.res) THEN << <<"completes", FALSE>> >>
  ELSE IF R = <<>> THEN << <<"empty", o = <<>>>> >>
  ELSE << <<"ends", Len(o) > 0 /\ o[1] = R[1] /\ o[Len(o)] = R[Len(R)]>>,
          <<"subsequence", IsSubseq(o, R)>>,
          <<"traces-the-same", Same(o, R)>>,
          <<"exact-turning-points", Straight(d) => Dedup(o) = Dedup(Exact(d))>> >>
Ring(e) == LET R == Rounded(e) o == e.res.v d == RingDedup(R) IN
  IF ~Ok(e.res) THEN << <<"completes", FALSE>> >>
  ELSE IF R = <<>> THEN << <<"empty", o = <<>>>> >>
  ELSE << <<"vertices", Len(o) > 0 /\ \A i \in 1..Len(o) : \E j \in 1..Len(R) : o[i] = R[j]>>,
          <<"traces-the-same", Same(Close(o), Close(R))>>,
          <<"signed-area", Area2(o) = Area2(R)>>,
          <<"exact-turning-points", RingStraight(d) => RingDedup(o) \in RingExact(d)>> >>
Excursions(e) ==
  IF ~Ok(e.res) THEN << <<"completes", FALSE>> >>
  ELSE << <<"excursion-leaves-no-trace",
            LET x == Insert(e.base, e.i, e.exc) w == <<e.base[e.i]>> \o e.exc IN
            (/\ x = e.pts /\ Straight(e.base) /\ Dedup(e.base) = e.base /\ Dedup(w) = w
             /\ Straight(w) /\ TurningPoints(e.base[e.i], e.exc) < e.k)
            => Dedup(e.res.v) = Exact(e.base)>> >>
(* e.rot: the ring is given from that many points after its own start; where   *)
(* it starts within the excursion, that leaves its vertex in another direction *)
(* than those of the ring's edges there                                        *)
From(ring, i) == SubSeq(ring, i, Len(ring)) \o SubSeq(ring, 1, i - 1)
RingExcursions(e) ==
  IF ~Ok(e.res) THEN << <<"completes", FALSE>> >>
  ELSE << <<"excursion-leaves-no-trace",
            LET x == Insert(e.base, e.i, e.exc) w == <<e.base[e.i]>> \o e.exc r == RingDedup(e.base)
                v == IF e.i > Len(r) THEN 1 ELSE e.i
                within == e.rot \in e.i..(e.i + 2 * Len(e.exc) - 2)
                apart == Cross(At(r, v + Len(r) - 1), r[v], e.exc[1]) # 0 /\ Cross(e.exc[1], r[v], At(r, v + 1)) # 0
            IN
            (/\ From(x, e.rot + 1) = e.pts /\ RingStraight(r) /\ Dedup(e.base) = e.base /\ Dedup(w) = w
             /\ Straight(w) /\ TurningPoints(e.base[e.i], e.exc) < e.k
             /\ (e.rot = 0 \/ (within /\ apart)))
            => RingDedup(e.res.v) \in RingExact(IF e.rot = 0 THEN r ELSE From(r, v))>> >>
Clauses(e) == CASE e.op = "open" -> Open(e) [] e.op = "ring" -> Ring(e)
                [] e.op = "excursion" -> Excursions(e)
                [] e.op = "ringexc" -> RingExcursions(e)
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
