-------------------------------- MODULE Words --------------------------------
(* C26, C27: names as sequences of character codes.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min3(a, b, c) == IF a <= b /\ a <= c THEN a ELSE IF b <= c THEN b ELSE c
MinW(a, b) == IF a < b THEN a ELSE b
MaxW(a, b) == IF a > b THEN a ELSE b

(* --- edit distance, row by row: row i holds the distances from the first  *)
(* i characters of a to every prefix of b                                   *)
RECURSIVE RowW(_, _, _, _, _, _)
RowW(a, b, i, up, up2, acc) ==      \* acc holds entries for prefixes 0..j-1
  LET j == Len(acc) IN
  IF j > Len(b) THEN acc
  ELSE IF j = 0 THEN RowW(a, b, i, up, up2, <<i>>)
  ELSE LET plain == Min3(up[j + 1] + 1, acc[j] + 1, up[j] + (IF a[i] = b[j] THEN 0 ELSE 1))
           swap == i > 1 /\ j > 1 /\ a[i] = b[j - 1] /\ a[i - 1] = b[j]
           v == IF swap THEN MinW(plain, up2[j - 1] + 1) ELSE plain
       IN RowW(a, b, i, up, up2, Append(acc, v))
RECURSIVE RowsW(_, _, _, _, _)
RowsW(a, b, i, up, up2) == IF i > Len(a) THEN up[Len(b) + 1]
                           ELSE RowsW(a, b, i + 1, TLCEval(RowW(a, b, i, up, up2, <<>>)), up)
Dist(a, b) == RowsW(a, b, 1, [j \in 1..(Len(b) + 1) |-> j - 1], <<>>)

(* --- similarity: characters match within a window, each at most once *)
Window(a, b) == MaxW(MaxW(Len(a), Len(b)) \div 2 - 1, 0)
RECURSIVE Match(_, _, _, _)
(* sequence of <<i, j>> matches, a scanned from position i *)
Match(a, b, i, used) ==
  IF i > Len(a) THEN <<>>
  ELSE LET free == {j \in 1..Len(b) : j >= i - Window(a, b) /\ j <= i + Window(a, b) /\ j \notin used /\ b[j] = a[i]} IN
       IF free = {} THEN Match(a, b, i + 1, used)
       ELSE LET j == CHOOSE j \in free : \A k \in free : j <= k IN <<<<i, j>>>> \o Match(a, b, i + 1, used \cup {j})
Rank(js, k) == CHOOSE j \in js : Cardinality({q \in js : q < j}) = k - 1
(* the similarity as a fraction *)
Jaro(a, b) ==
  LET M == Match(a, b, 1, {})  m == Len(M)
      js == {M[k][2] : k \in 1..m}
      h == Cardinality({k \in 1..m : a[M[k][1]] # b[Rank(js, k)]})      \* half transpositions
      x == Len(a)  y == Len(b)
  IN IF m = 0 THEN <<0, 1>>
     ELSE <<2 * m * m * y + 2 * m * m * x + (2 * m - h) * x * y, 6 * m * x * y>>
RECURSIVE Prefix(_, _, _)
Prefix(a, b, k) == IF k < 4 /\ k < Len(a) /\ k < Len(b)
                   THEN (IF a[k + 1] = b[k + 1] THEN Prefix(a, b, k + 1) ELSE k) ELSE k
Winkler(a, b) == LET j == Jaro(a, b) p == Prefix(a, b, 0) IN <<10 * j[1] + p * (j[2] - j[1]), 10 * j[2]>>

(* --- abbreviations *)
Blank == 32
RECURSIVE SubSeqOf(_, _, _, _)
SubSeqOf(u, w, i, j) == IF i > Len(u) THEN TRUE ELSE IF j > Len(w) THEN FALSE
                        ELSE IF u[i] = w[j] THEN SubSeqOf(u, w, i + 1, j + 1) ELSE SubSeqOf(u, w, i, j + 1)
Letters(w) == SelectSeq(w, LAMBDA c : c # Blank)
RECURSIVE WordsOf(_, _)
(* the words of w, the first of them begun with cur *)
WordsOf(w, cur) == IF w = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                   ELSE IF Head(w) = Blank THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o WordsOf(Tail(w), <<>>)
                   ELSE WordsOf(Tail(w), Append(cur, Head(w)))
RECURSIVE Pieces(_, _)
(* u consists of the initials of all words, each followed by later letters of its word *)
Pieces(u, ws) == IF ws = <<>> THEN u = <<>> ELSE
  \E k \in 1..Len(u) : u[1] = ws[1][1] /\ SubSeqOf(SubSeq(u, 2, k), ws[1], 1, 2) /\ Pieces(SubSeq(u, k + 1, Len(u)), Tail(ws))
WithInitials(u, ws, L) == IF Len(ws) >= L THEN u = [k \in 1..L |-> ws[k][1]] ELSE Pieces(u, ws)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE IF n < k THEN 0
                ELSE LET c == (Choose(n - 1, k - 1) * n) \div k IN IF c > 10000 THEN 10000 ELSE c
(* how many different selections of k letters there are                      *)
RECURSIVE Selections(_, _), SelSum(_, _, _)
Selections(w, k) == IF k = 0 THEN 1 ELSE IF k > Len(w) THEN 0 ELSE SelSum(w, k, 1)
SelSum(w, k, i) == IF i > Len(w) - k + 1 THEN 0
                   ELSE (IF \E j \in 1..i - 1 : w[j] = w[i] THEN 0 ELSE Selections(SubSeq(w, i + 1, Len(w)), k - 1)) + SelSum(w, k, i + 1)
(* enough different abbreviations for every one of the names *)
Plenty(names, L) == \A i \in 1..Len(names) :
  LET w == Letters(names[i]) d == Cardinality({w[k] : k \in 1..Len(w)}) IN
  \/ Len(names[i]) <= L /\ \A j \in 1..Len(names) : names[j] = names[i] => i = j
  \/ L <= d /\ Choose(d, L) >= Len(names)
  \/ Len(w) \in 1..9 /\ Selections(w, MinW(L, Len(w))) >= Len(names)
  \/ d > 0 /\ (Len(names) = 1 \/ (Len(names) = 2 /\ names[1] = names[2] /\ Len(w) < Len(names[1]) /\ Len(names[1]) <= L))
=============================================================================
