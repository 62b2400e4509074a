------------------------------ MODULE MC_Export ------------------------------
(* Exports by several processes, interleaved: each saves its program to a    *)
(* temporary file (Begin), its converter reads the file and writes the image *)
(* (Convert), and the file is removed (End).                                 *)
EXTENDS Render, TLC, Json
CONSTANTS N, Rounds, Own
VARIABLES at, temp, image, done, hist
vars == <<at, temp, image, done, hist>>
Procs == 1..N
Prog(p, r) == 10 * p + r
Name(p) == IF Own THEN p ELSE 0           \* Own: each export has a file of its own
Init == at = [p \in Procs |-> "idle"] /\ temp = [k \in {} |-> 0] /\ image = [p \in Procs |-> <<>>]
        /\ done = [p \in Procs |-> 0] /\ hist = <<>>
Begin(p) == at[p] = "idle" /\ done[p] < Rounds /\ at' = [at EXCEPT ![p] = "saved"]
            /\ temp' = With(temp, Name(p), Prog(p, done[p])) /\ UNCHANGED <<image, done>>
Convert(p) == at[p] = "saved" /\ at' = [at EXCEPT ![p] = "read"]
              /\ image' = [image EXCEPT ![p] = Append(@, IF Name(p) \in DOMAIN temp THEN temp[Name(p)] ELSE 0)]
              /\ UNCHANGED <<temp, done>>
End(p) == at[p] = "read" /\ at' = [at EXCEPT ![p] = "idle"] /\ temp' = Without(temp, Name(p))
          /\ done' = [done EXCEPT ![p] = @ + 1] /\ UNCHANGED image
Next == \E p \in Procs : (Begin(p) \/ Convert(p) \/ End(p)) /\ hist' = Append(hist, p)
Spec == Init /\ [][Next]_vars
OwnImage == \A p \in Procs : \A r \in 1..Len(image[p]) : image[p][r] = Prog(p, r - 1)
NothingLeft == (\A p \in Procs : at[p] = "idle") => temp = [k \in {} |-> 0]
Finished == \A p \in Procs : done[p] = Rounds
Export == Finished => PrintT("@E" \o ToJson(hist))
=============================================================================
