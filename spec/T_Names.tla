------------------------------- MODULE T_Names -------------------------------
(* Judging recorded distances, matches, similarities and abbreviations.     *)
EXTENDS Judge, Words
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1
(* relative error as a fraction *)
Err(a, b) == <<2 * Dist(a, b), Len(a) + Len(b)>>
LeF(x, y) == x[1] * y[2] <= y[1] * x[2]
LtF(x, y) == x[1] * y[2] < y[1] * x[2]
(* q is x in millionths *)
Is(q, x) == Abs(q * x[2] - 1000000 * x[1]) <= x[2]
DistE(e) == << <<"answers", Ok(e.dist) /\ Ok(e.rev) /\ (e.a \o e.b # <<>> => Ok(e.err))>>,
  <<"least-number-of-edits", Ok(e.dist) => e.dist.v = Dist(e.a, e.b)>>,
  <<"symmetric", Ok(e.rev) => e.rev.v = Dist(e.a, e.b)>>,
  <<"relative-error", (e.a \o e.b # <<>> /\ Ok(e.err)) => Is(e.err.v, Err(e.a, e.b))>> >>
MapE(e) ==
  LET m == e.res.v
      errs(k) == [i \in 1..Len(e.values) |-> Err(k, e.values[i])]
      best(k) == LET r == TLCEval(errs(k)) IN CHOOSE i \in 1..Len(r) : (\A j \in 1..Len(r) : LeF(r[i], r[j]))
                                                            /\ \A j \in 1..(i - 1) : LtF(r[i], r[j])
  IN IF ~Ok(e.res) THEN << <<"answers", FALSE>> >>
     ELSE << <<"every-key-once", Len(m) = Len(e.keys) /\ \A k \in {e.keys[i] : i \in 1..Len(e.keys)} :
               Cardinality({i \in 1..Len(m) : m[i][1] = k}) = Cardinality({i \in 1..Len(e.keys) : e.keys[i] = k})>>,
             <<"closest-value", \A i \in 1..Len(m) : m[i][2] = e.values[best(m[i][1])]>>,
             <<"score", \A i \in 1..Len(m) : Abs(m[i][3] + e.errs[i] - 1000000) <= 2
                          /\ (m[i][2] \in {e.values[j] : j \in 1..Len(e.values)} => Is(e.errs[i], Err(m[i][1], m[i][2])))>>,
             <<"best-first", \A i \in 1..(Len(m) - 1) : m[i + 1][3] <= m[i][3]>> >>
One == 268435456        \* 2^28; values are enclosed between lo and hi
SimE(e) ==
  LET sh == {e.a[k] : k \in 1..Len(e.a)} \cap {e.b[k] : k \in 1..Len(e.b)}
      oks == Ok(e.j) /\ Ok(e.jr) /\ Ok(e.w) /\ Ok(e.wr)
  IN << <<"answers", oks>>,
        <<"between-0-and-1", oks => \A v \in {e.j.v, e.jr.v, e.w.v, e.wr.v} : 0 <= v[1] /\ v[2] <= One>>,
        <<"symmetric", oks => Abs(e.j.v[1] - e.jr.v[1]) <= 2 /\ Abs(e.w.v[1] - e.wr.v[1]) <= 2>>,
        <<"one-exactly-for-equal-names", Ok(e.j) => ((e.j.v = <<One, One>>) <=> (e.a = e.b /\ e.a # <<>>))>>,
        <<"zero-if-nothing-shared", (Ok(e.j) /\ sh = {}) => e.j.v = <<0, 0>>>>,
        <<"prefix-never-lowers", (Ok(e.j) /\ Ok(e.w)) => e.j.v[1] - 2 <= e.w.v[1]>>,
        <<"is-the-jaro-similarity", (Ok(e.j) /\ oks) => LET x == TLCEval(Jaro(e.a, e.b)) q == (e.j.v[1] \div 1024) IN
            (x[2] < 8000 => Abs(q * x[2] - (One \div 1024) * x[1]) <= 2 * x[2])
            /\ Abs((e.j.v[1] \div 16384) * x[2] - (One \div 16384) * x[1]) <= 2 * x[2]>>,
        <<"prefix-weight", oks => Abs(10 * (e.w.v[1] - e.j.v[1]) - Prefix(e.a, e.b, 0) * (One - e.j.v[1])) <= 60>> >>
AbbE(e) ==
  LET n == e.norm  u == e.res.v IN
  IF ~Ok(e.res) THEN << <<"abbreviates", e.res.k = "exc" /\ ~Plenty(n, e.len)>> >>
  ELSE << <<"one-for-each-name", Len(u) = Len(n) /\ \A i \in 1..Len(u) : u[i][1] = 1>>,
          <<"all-different", \A i, j \in 1..Len(u) : i < j => u[i][2] # u[j][2]>>,
          <<"short-enough", \A i \in 1..Len(u) : Len(u[i][2]) <= e.len>>,
          <<"letters-in-order", \A i \in 1..Len(u) : SubSeqOf(u[i][2], n[i], 1, 1)>>,
          \* names that differ only in superfluous words share what is left: one of them has it whole
          <<"short-names-whole", \A i \in 1..Len(u) : Len(n[i]) <= e.len => \E j \in 1..Len(u) : n[j] = n[i] /\ u[j][2] = n[i]>>,
          <<"no-blanks-when-shortened", \A i \in 1..Len(u) : (Len(n[i]) > e.len \/ u[i][2] # n[i]) => Letters(u[i][2]) = u[i][2]>>,
          <<"initials-kept", (Len(n) = 1 /\ Len(n[1]) > e.len) => WithInitials(u[1][2], WordsOf(n[1], <<>>), e.len)>> >>
AscE(e) == << <<"answers", Ok(e.res)>>, <<"base-letters", Ok(e.res) => e.res.v = e.want>> >>
Clauses(e) == CASE e.op = "dist" -> DistE(e) [] e.op = "map" -> MapE(e) [] e.op = "sim" -> SimE(e)
                [] e.op = "abb" -> AbbE(e) [] e.op = "ascii" -> AscE(e)
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
