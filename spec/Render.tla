------------------------------- MODULE Render -------------------------------
(* C35: canvases are turned into images by a converter that reads a program  *)
(* from a temporary file.  Any number of exports may be under way at once.   *)
EXTENDS Integers, Sequences, FiniteSets
(* temp: file name -> program; an export of program p goes through Name(p)    *)
Without(f, n) == [k \in DOMAIN f \ {n} |-> f[k]]
With(f, n, v) == [k \in DOMAIN f \cup {n} |-> IF k = n THEN v ELSE f[k]]
(* a box enlarged by a twentieth about its centre, in 64ths; exact if sides   *)
(* are multiples of 40                                                        *)
Enlarged(b) == LET dx == (b[3] - b[1]) \div 40  dy == (b[4] - b[2]) \div 40 IN
               <<b[1] - dx, b[2] - dy, b[3] + dx, b[4] + dy>>
Even(b) == (b[3] - b[1]) % 40 = 0 /\ (b[4] - b[2]) % 40 = 0
=============================================================================
