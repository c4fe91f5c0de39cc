-------------------------------- MODULE Paths --------------------------------
(* Where the library looks for its data and puts its files: the data folder and its override, the
   folder for log reports given by the environment, the working folder, and folders made on the
   way to an output file. A small tree of folders and files stands for the disk; a path is a
   sequence of names from the top. The program itself lies in ExeDir.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Parts       \* which groups of operations are played: "tree", "data", "env", "dump"
VARIABLES data, env, cwd, tree, act
vars == <<data, env, cwd, tree>>

ExeDir == <<"x", "y">>
Top == <<"t">>                       \* the tree played in
Names == {"a", "b.x"}
Paths1 == {<<n>> : n \in Names}
Paths2 == {<<n, m>> : n \in Names, m \in Names}
Paths3 == {<<n, m, "b.x">> : n \in Names, m \in Names}
Under == Paths1 \cup Paths2          \* places below Top
Front(p) == SubSeq(p, 1, Len(p) - 1)
LastOf(p) == p[Len(p)]
HasExt(n) == n \in {"b.x", "r.txt"}
Prefixes(p) == {SubSeq(p, 1, k) : k \in 1..Len(p)}

RECURSIVE Norm(_, _)
Norm(done, p) == IF p = <<>> THEN done
                 ELSE Norm(CASE Head(p) = ".." -> Front(done) [] Head(p) = "." -> done [] OTHER -> Append(done, Head(p)), Tail(p))

(* tree: place below Top -> "dir" or "file"; Top itself is a folder *)
Kind(p) == IF p = <<>> THEN "dir" ELSE IF p \in DOMAIN tree THEN tree[p] ELSE "none"
With(t, p, k) == [q \in DOMAIN t \cup {p} |-> IF q = p THEN k ELSE t[q]]
Without(t, p) == [q \in {r \in DOMAIN t : p \notin Prefixes(r)} |-> t[q]]
Dirs == {p \in DOMAIN tree : tree[p] = "dir"}

Default == [set |-> FALSE]
NoEnv == [set |-> FALSE]
Init == /\ data = Default /\ env = NoEnv /\ cwd = <<>> /\ tree = (<<"a">> :> "dir") /\ act = [op |-> "init"]

(* ---- the data folder: absolute paths start at the root, relative ones at the program *)
AbsData == {<<"t", "a">>, <<"d">>, <<"t", "..", "d", "e.f">>}
RelData == {<<"d">>, <<"a">>, <<"b.x">>, <<"a", "a">>, <<"paths">>, <<"..", "d">>, <<".", "d", "..", "..", "e.f">>, <<>>, <<"t">>}
DataDir == IF data.set THEN data.at ELSE <<"DEFAULT">>
SetData(p, abs) == /\ data' = [set |-> TRUE, at |-> Norm(IF abs THEN <<>> ELSE ExeDir, p)]
                   /\ act' = [op |-> "data", p |-> p, abs |-> abs, res |-> "ok"] /\ UNCHANGED <<env, cwd, tree>>
ResetData == data' = Default /\ act' = [op |-> "nodata", res |-> "ok"] /\ UNCHANGED <<env, cwd, tree>>

(* ---- the working folder and the environment *)
Cd(p) == /\ p = <<>> \/ p \in Dirs
         /\ cwd' = p /\ act' = [op |-> "cd", p |-> p, res |-> "ok"] /\ UNCHANGED <<data, env, tree>>
SetEnv(p, abs) == env' = [set |-> TRUE, abs |-> abs, at |-> p] /\ act' = [op |-> "env", p |-> p, abs |-> abs, res |-> "ok"] /\ UNCHANGED <<data, cwd, tree>>
NoSetEnv == env' = NoEnv /\ act' = [op |-> "noenv", res |-> "ok"] /\ UNCHANGED <<data, cwd, tree>>
LogDir == IF ~env.set THEN cwd ELSE IF env.abs THEN env.at ELSE cwd \o env.at     \* below Top

(* ---- things others do to the disk *)
Touch(p) == /\ Kind(p) = "none" /\ Kind(Front(p)) = "dir"
            /\ tree' = With(tree, p, "file") /\ act' = [op |-> "touch", p |-> p, res |-> "ok"] /\ UNCHANGED <<data, env, cwd>>
Remove(p) == /\ Kind(p) # "none" /\ p \notin Prefixes(cwd)
             /\ tree' = Without(tree, p) /\ act' = [op |-> "remove", p |-> p, res |-> "ok"] /\ UNCHANGED <<data, env, cwd>>

(* ---- folders for an output file: what ends in a name with an extension is a file *)
Make(p, abs, slash) ==
    LET full == IF abs THEN p ELSE cwd \o p
        folder == IF ~slash /\ HasExt(LastOf(p)) THEN Front(full) ELSE full
        blocked == \E q \in Prefixes(folder) : Kind(q) = "file"
        missing == {q \in Prefixes(folder) : Kind(q) = "none"}
    IN /\ Len(folder) <= 2
       /\ tree' = IF blocked THEN tree ELSE [q \in DOMAIN tree \cup missing |-> IF q \in missing THEN "dir" ELSE tree[q]]
       /\ act' = [op |-> "make", p |-> p, abs |-> abs, slash |-> slash, res |-> IF blocked THEN "error" ELSE "ok"]
       /\ UNCHANGED <<data, env, cwd>>

(* ---- a log report: to the place given, else to the working folder under the same name, else nowhere *)
CanWrite(p) == Kind(Front(p)) = "dir" /\ Kind(p) # "dir"
Landing(p, name) == IF CanWrite(p) THEN p ELSE IF CanWrite(Append(cwd, name)) THEN Append(cwd, name) ELSE <<"NOWHERE">>
Dump(p, abs) ==
    LET full == IF abs THEN p ELSE cwd \o p
        at == Landing(full, LastOf(p))
    IN /\ Len(full) <= 2 /\ Len(cwd) <= 1
       /\ tree' = IF at = <<"NOWHERE">> THEN tree ELSE With(tree, at, "file")
       /\ act' = [op |-> "dump", p |-> p, abs |-> abs, res |-> at] /\ UNCHANGED <<data, env, cwd>>
(* without a name: a fresh name in the log folder, taken away again *)
DumpFresh == /\ act' = [op |-> "fresh", res |-> Landing(Append(LogDir, "LOG"), "LOG")] /\ UNCHANGED vars

(* (kept as plain disjunctions over constant sets: then TLC draws each step singly) *)
On(part, set) == IF part \in Parts THEN set ELSE {}
Next ==
    \/ \E p \in On("data", AbsData) : SetData(p, TRUE)
    \/ \E p \in On("data", RelData) : SetData(p, FALSE)
    \/ \E k \in On("data", {1}) : ResetData
    \/ \E p \in On("cd", {<<>>} \cup Under) : Cd(p)
    \/ \E p \in On("env", {<<>>, <<"a">>, <<"b.x">>, <<"a", "a">>}) : SetEnv(p, TRUE)
    \/ \E p \in On("env", {<<>>, <<"a">>}) : SetEnv(p, FALSE)
    \/ \E k \in On("env", {1}) : NoSetEnv
    \/ \E p \in On("tree", Under) : Touch(p)
    \/ \E p \in On("tree", Under) : Remove(p)
    \/ \E p \in On("tree", Under \cup Paths3) : \E abs \in BOOLEAN : \E slash \in BOOLEAN : Make(p, abs, slash)
    \/ \E p \in On("dump", Under) : \E abs \in BOOLEAN : Dump(p, abs)
    \/ \E k \in On("dump", {1}) : DumpFresh

(* ---- the properties, on the specification *)
Sane == /\ \A p \in DOMAIN tree : Len(p) > 1 => Front(p) \in Dirs
        /\ cwd = <<>> \/ cwd \in Dirs
(* making folders for a file only adds folders, and then the file's folder is there *)
MakeOnlyAdds == [][act'.op = "make" =>
                     /\ \A q \in DOMAIN tree : q \in DOMAIN tree' /\ tree'[q] = tree[q]
                     /\ \A q \in DOMAIN tree' \ DOMAIN tree : tree'[q] = "dir"
                     /\ act'.res = "ok" => LET f == IF act'.abs THEN act'.p ELSE cwd \o act'.p
                                           IN Len(f) = 1 \/ (Front(f) \in DOMAIN tree' /\ tree'[Front(f)] = "dir")]_<<vars, act>>
(* where the program is started from says nothing about its data *)
DataFree == [][act'.op \in {"cd", "env", "make", "dump"} => data' = data]_<<vars, act>>

Tree == {<<p, tree[p]>> : p \in DOMAIN tree}
Obs == [data |-> DataDir, cwd |-> cwd, tree |-> Tree, log |-> Append(LogDir, "r.txt"), fresh |-> Append(LogDir, "LOG"),
        sub |-> LogDir \o <<"a", "r.txt">>]
View == vars
St == <<data, env, cwd, Tree>>
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> St', o |-> Obs']))
SimEmit == PrintT(ToJson([lv |-> TLCGet("level"), a |-> act, o |-> Obs]))
===============================================================================
