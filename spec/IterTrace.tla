------------------------------ MODULE IterTrace ------------------------------
(***************************************************************************)
(* Trace validation: is every logged call a step of Iter?                  *)
(* The log holds many programs; each starts with an "init" event which     *)
(* describes the object built.  A program whose next call is not a step is *)
(* put into `bad` and skipped.                                             *)
(*                                                                         *)
(* Environment: TRACE (ndjson file), SCOPE (name of a set of aspects).     *)
(* The scope selects which calls and which fields of their observation the *)
(* property at hand speaks about; the state evolves by the specification   *)
(* in any case.                                                            *)
(***************************************************************************)
EXTENDS Iter, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Scope == IOEnv.SCOPE

\* calls the property speaks about
Focus ==
    CASE Scope = "C01" -> {"next", "end", "unpack"}
      [] Scope = "C02" -> {"collect"}
      [] Scope = "C03" -> {"fill"}
      [] Scope = "C04" -> {"collect_all", "fill_all"}
      [] Scope = "C05" -> {"foreach"}
      [] Scope = "C06" -> {"reduce", "doeach"}
      [] Scope = "C07" -> {"next", "end", "dflt", "collect", "collect_all", "reduce", "doeach"}
      [] Scope = "C08" -> {"next", "end", "dflt", "load", "loads", "collect", "unpack", "unpackall"}
      [] Scope = "C09" -> {"next", "end", "collect", "reduce", "doeach"}
      [] Scope = "C10" -> {"next", "end", "adv", "fin", "q", "collect", "reduce", "doeach", "unroll", "unpack", "foreach", "fill"}
      [] Scope = "C11" -> {"unpack", "unpackall", "unroll"}
      [] Scope = "C12" -> {"load", "loads", "uload", "uloads", "store", "stores", "ustore", "ustores", "ext", "uext", "rep", "urep"}
      [] Scope = "C23" -> {"next", "end", "collect", "reduce"}
\* calls it speaks about once one of those has happened in the program
Follow == IF Scope \in {"C05", "C06", "C11"} THEN {"next", "end"} ELSE {}
\* C10 is about positions and lengths only; the others leave those to it
PosScope == Scope = "C10"

SeqMatch(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i] = ANY \/ x[i] = y[i]
VecsMatch(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SeqMatch(x[i], y[i])

PosMatch(t, e) == t.dead \/ e.pos = t.pos
ValMatch(r, e) == r.o.r = e.r /\ r.o.n = e.n /\ VecsMatch(r.o.v, e.v)
Agrees(r, e) == ValMatch(r, e) /\ PosMatch(r.s, e)
\* what the property at hand asks of a call within its scope
Matches(r, e) ==
    IF PosScope THEN r.o.r = e.r /\ PosMatch(r.s, e) /\ (e.op = "q" => VecsMatch(r.o.v, e.v))
    ELSE ValMatch(r, e)
\* Delivering something or nothing is C10's business only at the very end.
Foreign(e, R, remaining) ==
    /\ PosScope /\ e.op \notin {"q", "adv", "fin"}
    /\ \A r \in R : r.o.r # e.r
    /\ ~(e.op \in {"next", "end"} /\ e.r = "some" /\ remaining = 0)

VARIABLES l,      \* next line of the log
          s,      \* state of the object under test
          armed,  \* a call of the focus has happened in this program
          skip,   \* rest of this program is not checked
          bad,    \* number of calls which are not steps (each is printed)
          cnt     \* how many calls were checked, and how many programs
vars == <<l, s, armed, skip, bad, cnt>>

Init == l = 1 /\ s = [dead |-> TRUE] /\ armed = FALSE /\ skip = TRUE /\ bad = 0 /\ cnt = [calls |-> 0, progs |-> 0, skipped |-> 0]

\* the line, and what the specification allows there
Report(e, x) == PrintT("BAD|" \o ToString(l) \o "|" \o (IF bad < 20 THEN ToString(x) ELSE ""))

InitEvent(e) ==
    /\ s' = IF e.made = 1 /\ ~MustReject(e) THEN Start(e) ELSE [dead |-> TRUE]
    /\ LET wrong == (e.made = 0) # MustReject(e)
       IN /\ IF wrong /\ Scope \in {"C07", "C08"} THEN Report(e, IF e.made = 0 THEN "accept" ELSE "reject") /\ bad' = bad + 1 ELSE UNCHANGED bad
          /\ skip' = (wrong \/ e.made = 0)
    /\ armed' = FALSE
    /\ cnt' = [cnt EXCEPT !.progs = @ + 1]

\* whatever the specification describes can be built
BuildPanic == /\ Report([op |-> "build"], "an object") /\ bad' = bad + 1 /\ skip' = TRUE /\ s' = [dead |-> TRUE] /\ armed' = FALSE
              /\ cnt' = [cnt EXCEPT !.progs = @ + 1, !.calls = @ + 1]
InScope(op) == op \in Focus \/ (armed /\ op \in Follow)
Skip == skip' = TRUE /\ UNCHANGED <<s, armed, bad>> /\ cnt' = [cnt EXCEPT !.skipped = @ + 1]
CallEvent(e) ==
    IF skip \/ s.dead \/ Unspecified(s, e.op, e.a) THEN Skip
    ELSE LET R == Results(s, e.op, e.a)
             Good(r) == IF InScope(e.op) THEN Matches(r, e) ELSE Agrees(r, e)
         IN IF \E r \in R : Good(r)
            THEN /\ s' = (CHOOSE r \in R : Good(r)).s
                 /\ armed' = (armed \/ e.op \in Focus)
                 /\ cnt' = [cnt EXCEPT !.calls = @ + IF InScope(e.op) THEN 1 ELSE 0]
                 /\ UNCHANGED <<skip, bad>>
            ELSE IF InScope(e.op) /\ ~Foreign(e, R, Rem(s))
            THEN /\ Report(e, {r.o : r \in R}) /\ bad' = bad + 1 /\ skip' = TRUE /\ UNCHANGED <<s, armed>>
                 /\ cnt' = [cnt EXCEPT !.calls = @ + 1]
            ELSE Skip

Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN IF e.op = "init" THEN InitEvent(e) ELSE IF e.op = "buildpanic" THEN BuildPanic ELSE CallEvent(e)
Finish == /\ l = Len(Trace) + 1
          /\ PrintT("RESULT|" \o ToString(bad) \o "|" \o ToString(cnt.calls) \o "|" \o ToString(cnt.progs) \o "|" \o ToString(cnt.skipped))
          /\ l' = l + 1 /\ UNCHANGED <<s, armed, skip, bad, cnt>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
\* the walk through the log is deterministic: no need to tell states by more
Where == <<l, bad>>
=============================================================================
