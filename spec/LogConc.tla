------------------------------- MODULE LogConc -------------------------------
(* Concurrent use of the logger, as a specification of which recorded          *)
(* histories are allowed.  Every call takes effect at one instant between its  *)
(* start and its end; a log call is compared with the threshold at one         *)
(* instant, recorded at another and handed to the sink then in place at a      *)
(* third, interleaved in any way with the other threads.                       *)
(* Where no call of the trace changes the threshold (the sink), the looking (the *)
(* handing over) is joined with the recording: the explanations are the same.  *)
(* The traces (JSON, from the real code) say for each call when it started and *)
(* ended, what a dump showed, and which sinks received a message.              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.VF_TRACES)

VARIABLES tr, st, cap, hist, lvl, sink
vars == <<tr, st, cap, hist, lvl, sink>>

Ops == Traces[tr].ops
N == Len(Ops)

AtLeast1(c) == IF c > 1 THEN c ELSE 1
Newest(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

Init == /\ tr \in 1..Len(Traces)
        /\ st = [o \in 1..Len(Traces[tr].ops) |-> 0]
        /\ cap = Traces[tr].cap /\ hist = Traces[tr].hist
        /\ lvl = Traces[tr].lvl /\ sink = Traces[tr].sink

\* o may start: whatever ended before it started is finished
Ready(o) == /\ st[o] = 0
            /\ \A p \in 1..N : Ops[p].r < Ops[o].i => st[p] = 3

\* the threshold is looked at
Decide(o) ==
    LET x == Ops[o] IN
    /\ x.op = "log" /\ Ready(o)
    /\ (Traces[tr].levels \/ x.s < lvl)
    /\ IF x.s >= lvl THEN st' = [st EXCEPT ![o] = 1]
       ELSE x.snk = <<>> /\ st' = [st EXCEPT ![o] = 3]
    /\ UNCHANGED <<tr, cap, hist, lvl, sink>>

\* the message enters the history; what a dump showed to be earlier (`pre`,
\* implied by the dumps, cuts the search) has been recorded before
Record(o) ==
    LET x == Ops[o] IN
    /\ x.op = "log"
    /\ IF Traces[tr].levels THEN st[o] = 1 ELSE Ready(o) /\ x.s >= lvl
    /\ \A j \in 1..Len(x.pre) : st[x.pre[j]] >= 2
    /\ hist' = Newest(Append(hist, [s |-> x.s, k |-> x.k]), cap)
    /\ IF Traces[tr].sinks THEN st' = [st EXCEPT ![o] = 2]
       ELSE /\ x.snk = IF sink = 0 THEN <<>> ELSE <<sink>>
            /\ st' = [st EXCEPT ![o] = 3]
    /\ UNCHANGED <<tr, cap, lvl, sink>>

Deliver(o) ==
    LET x == Ops[o] IN
    /\ x.op = "log" /\ st[o] = 2
    /\ x.snk = IF sink = 0 THEN <<>> ELSE <<sink>>
    /\ st' = [st EXCEPT ![o] = 3]
    /\ UNCHANGED <<tr, cap, hist, lvl, sink>>

Other(o) ==
    LET x == Ops[o] IN
    /\ x.op # "log" /\ Ready(o)
    /\ st' = [st EXCEPT ![o] = 3]
    /\ tr' = tr
    /\ cap' = IF x.op = "cap" THEN AtLeast1(x.c) ELSE cap
    /\ hist' = Newest(hist, cap')
    /\ lvl' = IF x.op = "level" THEN x.l ELSE lvl
    /\ sink' = IF x.op = "sink" THEN x.c ELSE sink
    /\ x.op = "dump" => x.res = hist

Next == \E o \in 1..N : Decide(o) \/ Record(o) \/ Deliver(o) \/ Other(o)

Done == \A o \in 1..N : st[o] = 3
\* printed for every trace that the specification explains completely
Report == Done => PrintT(ToJson([ok |-> tr]))
Bounded == Len(hist) <= cap
\* nothing more to explore for a trace once it is explained
Go == ~Done
=============================================================================
