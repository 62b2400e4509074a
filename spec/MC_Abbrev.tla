------------------------------ MODULE MC_Abbrev ------------------------------
(* C27: names are abbreviated one after another, short ones first; each     *)
(* takes some still unused selection of its letters.                        *)
EXTENDS Words, Json
CONSTANTS Alphabet, MaxLen, MaxNames, L
VARIABLES names, abb
vars == <<names, abb>>
Strs == UNION {[1..n -> Alphabet] : n \in 1..MaxLen}
Good(w) == w[1] # Blank /\ w[Len(w)] # Blank
Init == names \in UNION {[1..n -> {w \in Strs : Good(w)}] : n \in 1..MaxNames} 
        /\ (\A p, q \in 1..Len(names) : p < q => names[p] # names[q]) /\ abb = <<>>
Picks(w) == LET t == Letters(w) k == MinW(L, Len(t)) IN
  {u \in [1..k -> {t[x] : x \in 1..Len(t)}] : SubSeqOf(u, t, 1, 1)}
Left == (1..Len(names)) \ {abb[k][1] : k \in 1..Len(abb)}
Give(x) == /\ x \in Left /\ \A y \in Left : Len(names[x]) <= Len(names[y])
           /\ LET w == names[x] used == {abb[k][2] : k \in 1..Len(abb)} IN
              \E u \in (IF Len(w) <= L THEN {w} ELSE Picks(w)) :
                 u \notin used /\ abb' = Append(abb, <<x, u>>)
           /\ UNCHANGED names
Next == \E x \in 1..Len(names) : Give(x)
Spec == Init /\ [][Next]_vars
Unique == \A p, q \in 1..Len(abb) : p # q => abb[p][2] # abb[q][2]
Fits == \A p \in 1..Len(abb) : LET w == names[abb[p][1]] u == abb[p][2] IN
  Len(u) <= L /\ SubSeqOf(u, w, 1, 1) /\ (Len(w) <= L => u = w) /\ (Len(w) > L => Letters(u) = u)
(* a name alone can always keep its initials *)
Initials == \A w \in {names[x] : x \in 1..Len(names)} : Len(w) > L => \E u \in Picks(w) : WithInitials(u, WordsOf(w, <<>>), L)
NeverStuck == Plenty(names, L) /\ Left # {} => ENABLED Next
Export == abb = <<>> => PrintT("@E" \o ToJson(names))
=============================================================================
