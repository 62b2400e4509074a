------------------------------- MODULE MC_Memo -------------------------------
(* C24: functions with least-recently-used answer tables that call each     *)
(* other ("avg" asks "sum" and "len", "var" asks "avg" and "len").          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Cap, MaxOps
VARIABLES tab, hits, misses, last, n
vars == <<tab, hits, misses, last, n>>
Fns == {"sum", "len", "avg", "var"}
Asks(f) == CASE f = "avg" -> <<"sum", "len">> [] f = "var" -> <<"avg", "len">> [] OTHER -> <<>>
(* answers are symbols: which function of which data, from which answers *)
RECURSIVE True(_, _)
True(f, k) == <<f, k, [i \in 1..Len(Asks(f)) |-> True(Asks(f)[i], k)]>>
Find(t, k) == {i \in 1..Len(t) : t[i][1] = k}
Put(t, k, v) == LET u == SelectSeq(t, LAMBDA e : e[1] # k) IN
                Append(IF Len(u) = Cap THEN Tail(u) ELSE u, <<k, v>>)
(* state record c = [tab, hits, misses]; returns <<c', answer>> *)
RECURSIVE Call(_, _, _), CallAll(_, _, _, _, _)
Call(c, f, k) ==
  IF Find(c.tab[f], k) # {}
  THEN LET i == CHOOSE i \in Find(c.tab[f], k) : TRUE v == c.tab[f][i][2] IN
       <<[c EXCEPT !.tab[f] = Put(@, k, v), !.hits[f] = @ + 1], v>>
  ELSE LET r == CallAll([c EXCEPT !.misses[f] = @ + 1], Asks(f), k, 1, <<>>)
           v == <<f, k, r[2]>> IN
       <<[r[1] EXCEPT !.tab[f] = Put(@, k, v)], v>>
CallAll(c, fs, k, i, acc) ==
  IF i > Len(fs) THEN <<c, acc>>
  ELSE LET r == Call(c, fs[i], k) IN CallAll(r[1], fs, k, i + 1, Append(acc, r[2]))
Zero == [f \in Fns |-> 0]
Init == tab = [f \in Fns |-> <<>>] /\ hits = Zero /\ misses = Zero /\ last = <<"start">> /\ n = 0
Ask(f, k) == LET r == Call([tab |-> tab, hits |-> hits, misses |-> misses], f, k) IN
  tab' = r[1].tab /\ hits' = r[1].hits /\ misses' = r[1].misses /\ last' = <<"call", f, k, r[2]>>
Clear == tab' = [f \in Fns |-> <<>>] /\ hits' = Zero /\ misses' = Zero /\ last' = <<"clear">>
Next == n < MaxOps /\ n' = n + 1 /\ (Clear \/ \E f \in Fns, k \in Keys : Ask(f, k))
Spec == Init /\ [][Next]_vars
RightAnswer == last[1] = "call" => last[4] = True(last[2], last[3])
OnlyTruth == \A f \in Fns : \A i \in 1..Len(tab[f]) : tab[f][i][2] = True(f, tab[f][i][1])
Bounded == \A f \in Fns : Len(tab[f]) <= Cap /\ Len(tab[f]) <= misses[f]
Cleared == last[1] = "clear" => \A f \in Fns : tab[f] = <<>>
View == <<tab, last, n>>
Op(x) == IF x[1] = "call" THEN <<x[1], x[2], x[3]>> ELSE x
Key == <<tab, n, hits, misses>>
Export == PrintT("@E" \o ToJson([s |-> <<tab, n>>, op |-> Op(last'), t |-> <<tab', n'>>]))
=============================================================================
