------------------------------- MODULE Toolkit -------------------------------
(* The ephemeris toolkit behind huira::spice. The toolkit keeps one pending     *)
(* error and, in RETURN mode, refuses every call while it is pending. The       *)
(* wrappers answer every call on its own: an error becomes an exception with    *)
(* the toolkit's messages and nothing stays pending. Time conversions first     *)
(* see to it that leap seconds are there, loading the default file if need be.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES act, def, pck, lsk, flag, mode, pend, inj, cwd, loaded, bag
vars == <<act, def, pck, lsk, flag, mode, pend, inj, cwd, loaded, bag>>
St == [def |-> def, pck |-> pck, lsk |-> lsk, flag |-> flag, mode |-> mode, pend |-> pend, inj |-> inj, cwd |-> cwd]

\* -- the files of the two folders
Kinds == {"good", "bad", "nomsg", "missing", "lsk"}
Content(dir, name) ==
    CASE name = "good.k" -> "good"
      [] name = "leaps.tls" -> "lsk"
      [] name = "bad.k" -> "bad"
      [] name = "nomsg.k" -> "nomsg"
      [] name = "meta.k" -> "meta"
      [] name = "metabad.k" /\ dir = "sub" -> "meta"
      [] name = "part.k" /\ dir = "sub" -> "good"
      [] OTHER -> "missing"
Names(name) == IF name = "meta.k" THEN <<"part.k">> ELSE <<"part.k", "leaps.tls", "nothere.k">>
\* what loading `name` of folder `dir` does, meta-kernels naming files of the working folder
One(dir, name, kind) ==
    CASE kind = "good" -> [got |-> <<<<dir, name>>>>, lsk |-> FALSE, err |-> <<>>]
      [] kind = "lsk" -> [got |-> <<<<dir, name>>>>, lsk |-> TRUE, err |-> <<>>]
      [] kind = "bad" -> [got |-> <<>>, lsk |-> FALSE, err |-> <<"SPICE(BADKERNEL)", name>>]
      [] kind = "nomsg" -> [got |-> <<>>, lsk |-> FALSE, err |-> <<"SPICE(NOMSG)">>]
      [] kind = "missing" -> [got |-> <<>>, lsk |-> FALSE, err |-> <<"SPICE(NOSUCHFILE)", name>>]
Load(wd, dir, name) ==
    IF Content(dir, name) # "meta" THEN One(dir, name, Content(dir, name))
    ELSE LET parts == [i \in 1..Len(Names(name)) |-> One(wd, Names(name)[i], Content(wd, Names(name)[i]))]
             bad == {i \in 1..Len(parts) : parts[i].err # <<>>}
             first == IF bad = {} THEN Len(parts) + 1 ELSE CHOOSE i \in bad : \A j \in bad : i <= j
             all == [i \in 1..(first - 1) |-> parts[i].got[1]]
         IN [got |-> all \o IF bad = {} THEN <<<<dir, name>>>> ELSE <<>>,
             lsk |-> \E i \in 1..(first - 1) : parts[i].lsk,
             err |-> IF bad = {} THEN <<>> ELSE parts[first].err]

\* -- the wrapped calls that load nothing: what the toolkit answers
Timely == {"str2et", "deltet", "unitim", "timout"}
Calls == {"str2et", "deltet", "unitim", "timout", "spkezr", "pxform", "sxform", "conics"}
Wrongs == [str2et |-> {"text"}, deltet |-> {"type"}, unitim |-> {"from", "to"}, timout |-> {},
           spkezr |-> {"target", "frame"}, pxform |-> {"frame", "to"}, sxform |-> {"frame", "to"}, conics |-> {"mu", "periapsis"}]
Text(f, how) ==
    CASE f = "str2et" -> <<"SPICE(UNPARSEDTIME)", "no such day">>
      [] f = "deltet" -> <<"SPICE(INVALIDEPOCH)", "SUNDIAL">>
      [] f = "unitim" -> <<"SPICE(BADTIMETYPE)", IF how = "from" THEN "SUNDIAL" ELSE "HOURGLASS">>
      [] f = "spkezr" /\ how = "target" -> <<"SPICE(IDCODENOTFOUND)", "NOBODY">>
      [] f = "conics" -> <<"SPICE(BADELEMENTS)", "non-physical">>
      [] OTHER -> <<"SPICE(UNKNOWNFRAME)", "NOWHERE">>
\* entry points a wrapper passes through
Entries(f) == IF f = "sxform" THEN {"sxform", "xf2rav"} ELSE {f}

\* -- steps
None == [fn |-> "", msg |-> ""]
Init ==
    /\ act = [op |-> "init"] /\ def = "lsk" /\ pck = "good" /\ lsk = FALSE /\ flag = FALSE
    /\ mode = "ABORT" /\ pend = FALSE /\ inj = None /\ cwd = "top" /\ loaded = <<>> /\ bag = FALSE
Injected(fns) == inj.fn \in fns
InjText == <<"SPICE(INJECTED)", inj.msg>>
\* seeing to the leap seconds; <<error, newly loaded, known now, was tried>>
Ensure ==
    IF flag THEN [err |-> <<>>, got |-> <<>>, inj |-> inj]
    ELSE IF lsk THEN [err |-> <<>>, got |-> <<>>, inj |-> inj]
    ELSE IF Injected({"furnsh"}) THEN [err |-> InjText, got |-> <<>>, inj |-> None]
    ELSE LET x == One("data", "naif0012.tls", def) IN [err |-> x.err, got |-> x.got, inj |-> inj]
Furnish(c, dir, wd) ==
    LET x == Load(wd, dir, c.name)
        e == IF Injected({"furnsh"}) THEN InjText ELSE x.err
    IN /\ act' = [c EXCEPT !.res = e]
       /\ loaded' = IF Injected({"furnsh"}) THEN loaded ELSE loaded \o x.got
       /\ lsk' = (lsk \/ (x.lsk /\ ~Injected({"furnsh"})))
       /\ inj' = IF Injected({"furnsh"}) THEN None ELSE inj
       /\ pend' = FALSE /\ mode' = "RETURN"
       /\ UNCHANGED <<def, pck, flag, cwd, bag>>
\* c.at: the folder the file is given in
Furnsh(c) == Furnish(c, c.at, cwd)
FurnshRelative(c) == Furnish(c, c.at, c.at)
Pck(c) ==
    LET x == One("data", "pck00011.tpc", pck)
        e == IF Injected({"furnsh"}) THEN InjText ELSE x.err
    IN /\ act' = [c EXCEPT !.res = e]
       /\ loaded' = IF e = <<>> THEN loaded \o x.got ELSE loaded
       /\ inj' = IF Injected({"furnsh"}) THEN None ELSE inj
       /\ pend' = FALSE /\ mode' = "RETURN"
       /\ UNCHANGED <<def, pck, lsk, flag, cwd, bag>>
Wrong(c) == c.how # "ok"
Call(c) ==
    LET timely == c.f \in Timely
        z == IF timely THEN Ensure ELSE [err |-> <<>>, got |-> <<>>, inj |-> inj]
        hit == z.inj.fn \in Entries(c.f) /\ ~(z.inj.fn = "xf2rav" /\ Wrong(c))
        e == IF z.err # <<>> THEN z.err
             ELSE IF hit THEN <<"SPICE(INJECTED)", z.inj.msg>>
             ELSE IF Wrong(c) THEN Text(c.f, c.how) ELSE <<>>
    IN /\ act' = [c EXCEPT !.res = e]
       /\ loaded' = loaded \o z.got
       /\ lsk' = (lsk \/ z.got # <<>>)
       /\ flag' = (flag \/ (timely /\ z.err = <<>>))
       /\ inj' = IF z.err = <<>> /\ hit THEN None ELSE z.inj
       /\ pend' = FALSE
       /\ mode' = IF z.err # <<>> THEN mode ELSE "RETURN"
       /\ UNCHANGED <<def, pck, cwd, bag>>
\* several threads at once: every call is answered as if it were alone
Threads(c) ==
    LET z == IF \E t \in 1..Len(c.calls) : \E i \in 1..Len(c.calls[t]) : c.calls[t][i].f \in Timely THEN Ensure
             ELSE [err |-> <<>>, got |-> <<>>, inj |-> inj]
        answer(x) == IF x.f = "furnsh_rel" THEN Load(x.at, x.at, x.name).err
                     ELSE IF x.f \in Timely /\ z.err # <<>> THEN z.err
                     ELSE IF x.how # "ok" THEN Text(x.f, x.how) ELSE <<>>
        more == {<<t, i>> \in (1..Len(c.calls)) \X (1..20) : i <= Len(c.calls[t]) /\ c.calls[t][i].f = "furnsh_rel"}
        got(k) == Load(c.calls[k[1]][k[2]].at, c.calls[k[1]][k[2]].at, c.calls[k[1]][k[2]].name).got
        RECURSIVE AllOf(_)
        AllOf(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : TRUE IN got(k) \o AllOf(S \ {k})
    IN /\ inj = None
       /\ act' = [c EXCEPT !.res = [t \in 1..Len(c.calls) |-> [i \in 1..Len(c.calls[t]) |-> answer(c.calls[t][i])]]]
       /\ loaded' = loaded \o z.got \o AllOf(more)
       /\ lsk' = (lsk \/ z.got # <<>>)
       /\ flag' = (flag \/ ((\E t \in 1..Len(c.calls) : \E i \in 1..Len(c.calls[t]) : c.calls[t][i].f \in Timely) /\ z.err = <<>>))
       /\ pend' = FALSE /\ mode' = "RETURN" /\ bag' = TRUE
       /\ UNCHANGED <<def, pck, cwd, inj>>
\* others use the toolkit too, and leave their errors behind
Stale(c) == act' = c /\ pend' = (pend \/ mode = "RETURN") /\ UNCHANGED <<def, pck, lsk, flag, mode, inj, cwd, loaded, bag>>
\* the next call of a toolkit routine fails
Inject(c) == act' = c /\ inj' = [fn |-> c.fn, msg |-> c.msg] /\ UNCHANGED <<def, pck, lsk, flag, mode, pend, cwd, loaded, bag>>
Calm(c) == act' = c /\ inj' = None /\ UNCHANGED <<def, pck, lsk, flag, mode, pend, cwd, loaded, bag>>
File(c) == /\ act' = c /\ def' = (IF c.which = "lsk" THEN c.kind ELSE def) /\ pck' = (IF c.which = "pck" THEN c.kind ELSE pck)
           /\ UNCHANGED <<lsk, flag, mode, pend, inj, cwd, loaded, bag>>
Cd(c) == act' = c /\ cwd' = c.to /\ UNCHANGED <<def, pck, lsk, flag, mode, pend, inj, loaded, bag>>
NoFolder(c) == act' = [c EXCEPT !.res = <<>>] /\ UNCHANGED <<def, pck, lsk, flag, mode, pend, inj, cwd, loaded, bag>>

Obs == [loaded |-> loaded, bag |-> bag, cwd |-> cwd, pend |-> pend, flag |-> flag]

\* -- drawn by TLC itself (small instance)
SomeCalls == {[op |-> "call", f |-> f, how |-> h, res |-> <<>>] : f \in Calls, h \in {"ok"}}
             \union UNION {{[op |-> "call", f |-> f, how |-> h, res |-> <<>>] : h \in Wrongs[f]} : f \in Calls}
FewCalls == {c \in SomeCalls : c.f \in {"str2et", "sxform", "unitim"} /\ c.how \in {"ok", "text", "to"}}
Files == {"good.k", "leaps.tls", "bad.k", "meta.k", "metabad.k"}
Next ==
    \/ \E c \in FewCalls : Call(c)
    \/ \E n \in Files : Furnsh([op |-> "furnsh", at |-> "sub", name |-> n, res |-> <<>>])
    \/ \E n \in {"meta.k", "metabad.k", "bad.k"} : FurnshRelative([op |-> "furnsh_rel", at |-> "sub", name |-> n, res |-> <<>>])
    \/ ~pend /\ Stale([op |-> "stale"])
    \/ \E fn \in {"furnsh", "xf2rav"} : inj = None /\ Inject([op |-> "inject", fn |-> fn, msg |-> "planted"])
    \/ \E k \in {"lsk", "missing"} : k # def /\ File([op |-> "file", which |-> "lsk", kind |-> k])
View == <<def, lsk, flag, mode, pend, inj, cwd>>
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> St', o |-> [x \in {"flag", "pend", "cwd"} |-> CASE x = "flag" -> flag' [] x = "pend" -> pend' [] x = "cwd" -> cwd']]))
Sane == (flag => lsk) /\ (pend => mode = "RETURN")
NoTrace == act.op \in {"call", "furnsh", "furnsh_rel", "pck", "threads"} => ~pend
=============================================================================
