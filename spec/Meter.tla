-------------------------------- MODULE Meter --------------------------------
(* C28, C29: what a progress line says, and what a terminal shows of it.    *)
(* Text is a sequence of one-character strings; time is in 1/64 second.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Hz == 64
None == 999999           \* unknown total

(* --- numbers as text *)
Digit(d) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[d + 1]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<Digit(n)>> ELSE Append(Dec(n \div 10), Digit(n % 10))
Two(n) == IF n < 10 THEN <<"0">> \o Dec(n) ELSE Dec(n)
RECURSIVE PadL(_, _)
PadL(t, w) == IF Len(t) >= w THEN t ELSE PadL(<<" ">> \o t, w)
RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN <<>> ELSE <<c>> \o Rep(c, n - 1)

(* whole seconds *)
Interval(s) == LET m == s \div 60  h == m \div 60 IN
  IF h > 0 THEN Dec(h) \o <<":">> \o Two(m % 60) \o <<":">> \o Two(s % 60) ELSE Two(m) \o <<":">> \o Two(s % 60)
(* rounded hundredths: either neighbour when half-way *)
Hundredths(n, d) == LET f == (2 * n + d) \div (2 * d) IN IF (2 * n + d) % (2 * d) = 0 THEN {f - 1, f} ELSE {f}
RateAt(n, e, hz) == IF e = 0 THEN {<<"?">>}
              ELSE {PadL(Dec(h \div 100) \o <<".">> \o Two(h % 100), 5) : h \in Hundredths(100 * hz * n, e)}
(* whole seconds of e * (total - n) / n ticks; one less if it comes out even (rounding) *)
LeftAt(n, total, e, hz) == IF n = 0 THEN {<<"?">>}
  ELSE LET p == e * (total - n)  q == hz * n  f == p \div q IN
       {Interval(x) : x \in IF p % q = 0 /\ f > 0 THEN {f - 1, f} ELSE {f}}
LitElapsed == <<"[", "e", "l", "a", "p", "s", "e", "d", ":", " ">>
LitLeft == <<" ", "l", "e", "f", "t", ":", " ">>
LitRate == <<" ", "i", "t", "e", "r", "s", "/", "s", "e", "c", "]">>
(* the acceptable texts for n items done out of total after e ticks, hz of which make a second *)
MeterAt(n, total, e, hz) ==
  IF total = None \/ total = 0 \/ n > total
  THEN {Dec(n) \o <<" ">> \o LitElapsed \o Interval(e \div hz) \o <<",", " ">> \o r \o LitRate : r \in RateAt(n, e, hz)}
  ELSE LET b == (10 * n) \div total
           head == <<"|">> \o Rep("#", b) \o Rep("-", 10 - b) \o <<"|", " ">> \o Dec(n) \o <<"/">> \o Dec(total)
                   \o <<" ">> \o PadL(Dec((100 * n) \div total), 3) \o <<"%", " ">> \o LitElapsed \o Interval(e \div hz)
       IN {head \o LitLeft \o x \o <<",", " ">> \o r \o LitRate : x \in LeftAt(n, total, e, hz), r \in RateAt(n, e, hz)}
Meter(n, total, e) == MeterAt(n, total, e, Hz)

(* --- terminals: the current line, the cursor, the lines left behind; what  *)
(* is written beyond column Wide is not shown                                *)
Wide == 400
Fresh == [line |-> <<>>, cur |-> 1, past |-> <<>>]
Put(t, c) ==
  IF c = "\r" THEN [t EXCEPT !.cur = 1]
  ELSE IF c = "\n" THEN [line |-> <<>>, cur |-> 1, past |-> Append(t.past, t.line)]
  ELSE [t EXCEPT !.cur = @ + 1,
                 !.line = IF t.cur > Wide THEN @ ELSE IF t.cur <= Len(@) THEN [@ EXCEPT ![t.cur] = c] ELSE Append(@, c)]
RECURSIVE Write(_, _, _)
Write(t, text, i) == IF i > Len(text) THEN t ELSE Write(TLCEval(Put(t, text[i])), text, i + 1)
RECURSIVE Seen(_)
Seen(x) == IF x = <<>> THEN x ELSE IF x[Len(x)] = " " THEN Seen(SubSeq(x, 1, Len(x) - 1)) ELSE x
=============================================================================
