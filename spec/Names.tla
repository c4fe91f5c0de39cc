-------------------------------- MODULE Names ---------------------------------
(* The names of the objects of a scene. Objects are numbered in the order they are made, per kind;
   an object made without a name is called after its kind and number, written "D1", "D2", ... here.
   A name that is taken gets the first free of the suffixes _1, _2, ...                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Silent,       \* kinds of objects; Silent ones can only be made
          Parts,               \* kinds loaded from files, which bring a node "part" with a name of its own
          Requests, Max, Live  \* names asked for, objects made per kind, objects there at one time
VARIABLES name, made, act
vars == <<name, made>>

Tables == Kinds \cup Silent \cup (IF Parts = {} THEN {} ELSE {"part"})
D(n) == "D" \o ToString(n)
All(k) == DOMAIN name[k]                                  \* the objects in the scene
Taken(k) == {name[k][i] : i \in All(k)}
Suffixed(b, n) == IF n = 0 THEN b ELSE b \o "_" \o ToString(n)
Fits(k, b) == LET n == CHOOSE n \in 0..Live : /\ Suffixed(b, n) \notin Taken(k)
                                             /\ \A m \in 0..n-1 : Suffixed(b, m) \in Taken(k)
              IN Suffixed(b, n)

Init == name = [k \in Tables |-> <<>>] /\ made = [k \in Kinds \cup Silent |-> 0] /\ act = [op |-> "init"]

Make(k, r) == LET i == made[k] + 1
                  n == Fits(k, IF r = "" THEN D(i) ELSE r)
              IN /\ i <= Max /\ Cardinality(All(k)) < Live
                 /\ made' = [made EXCEPT ![k] = i]
                 /\ name' = IF k \in Parts THEN [name EXCEPT ![k] = (i :> n) @@ @, !.part = (i :> Fits("part", "part")) @@ @] ELSE [name EXCEPT ![k] = (i :> n) @@ @]
                 /\ act' = [op |-> "make", k |-> k, r |-> r, i |-> i, res |-> n]
Rename(k, i, r) ==
    /\ i <= made[k]
    /\ LET ok == i \in All(k)
           want == IF r = "" THEN D(i) ELSE r
           n == IF ~ok THEN "error" ELSE IF name[k][i] = want THEN want ELSE Fits(k, want)
       IN /\ name' = IF ok THEN [name EXCEPT ![k][i] = n] ELSE name
          /\ act' = [op |-> "rename", k |-> k, i |-> i, r |-> r, res |-> n] /\ UNCHANGED made
Delete(k, i) ==
    /\ i <= made[k]
    /\ LET ok == i \in All(k)
       IN /\ name' = IF ~ok THEN name
                     ELSE LET gone == [name EXCEPT ![k] = [j \in All(k) \ {i} |-> name[k][j]]]
                          IN IF k \in Parts THEN [gone EXCEPT !.part = [j \in DOMAIN @ \ {i} |-> @[j]]] ELSE gone
          /\ act' = [op |-> "delete", k |-> k, i |-> i, res |-> IF ok THEN "ok" ELSE "error"] /\ UNCHANGED made
(* an object that is already in a scene - this one or another - is not added again, and cannot be named by another scene *)
Again(k, i, how) == /\ i <= made[k] /\ (how \in {"here", "there"} => i \in All(k))
                    /\ act' = [op |-> "again", k |-> k, i |-> i, how |-> how, res |-> "error"] /\ UNCHANGED vars

Next == \/ \E k \in Kinds \cup Silent : \E r \in Requests : Make(k, r)
        \/ \E k \in Kinds : \E i \in 1..Max : \E r \in Requests : Rename(k, i, r)
        \/ \E k \in Kinds : \E i \in 1..Max : Delete(k, i)
        \/ \E k \in Kinds : \E i \in 1..Max : \E how \in {"here", "there", "named there", "deleted there"} : Again(k, i, how)

(* many objects first, then anything *)
Full == \A k \in Kinds : made[k] >= 16
Crowd == \/ \E k \in Kinds : \E r \in Requests : Make(k, r)
         \/ \E k \in Kinds : \E i \in 1..Max : \E r \in Requests : Full /\ Rename(k, i, r)
         \/ \E k \in Kinds : \E i \in 1..Max : Full /\ Delete(k, i)

(* ---- the properties, on the specification *)
Unique == \A k \in Tables : \A i, j \in All(k) : name[k][i] = name[k][j] => i = j
NonEmpty == \A k \in Tables : "" \notin Taken(k)
(* a step changes no name but that of the object it is about *)
OthersKeep == [][\A k \in Kinds \cup Silent : \A i \in All(k) :
                    (k # act'.k \/ i # act'.i) => i \in DOMAIN name'[k] /\ name'[k][i] = name[k][i]]_vars
(* what is asked for is what is given when it is free *)
Granted == [][act'.op \in {"make", "rename"} /\ act'.r # "" /\ act'.r \notin Taken(act'.k) /\ act'.res # "error" => act'.res = act'.r]_<<vars, act>>
Idempotent == [][act'.op = "rename" /\ act'.res # "error" /\ act'.r = name[act'.k][act'.i] => name' = name]_<<vars, act>>

(* ---- observations: who carries each name of interest, and the list of all *)
Looked == Requests \cup {Suffixed(r, 1) : r \in Requests \ {""}} \cup {D(n) : n \in 1..Max}
Who(k, n) == IF \E i \in All(k) : name[k][i] = n THEN CHOOSE i \in All(k) : name[k][i] = n ELSE 0
Obs == [list |-> [k \in Tables |-> {<<i, name[k][i]>> : i \in All(k)}],
        who |-> [k \in Kinds |-> {<<n, Who(k, n)>> : n \in Looked}]]
St == <<made, [k \in Kinds \cup Silent |-> {<<i, name[k][i]>> : i \in All(k)}]>>
View == St
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> St', o |-> Obs']))
SimEmit == PrintT(ToJson([lv |-> TLCGet("level"), a |-> act, o |-> Obs]))
===============================================================================
