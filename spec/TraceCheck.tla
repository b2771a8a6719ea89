----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Does what the library wrote at each command agree with TraceLog?        *)
(*                                                                         *)
(* Events: c (command), and for "run" the thread t and the operation o;    *)
(* for "conc" the threads and operations ts, os; out and log, the sites    *)
(* reported to standard output and to the log since the last command, as   *)
(* numbers in order; same, whether the operations returned what they       *)
(* return without the feature.  "boot" starts a program (no threads).      *)
(* A thread of which nothing is known yet shows the sites of an operation; *)
(* the events begin by running every operation on a thread of its own,     *)
(* which must show the kinds of report (hard, soft) it is known to make.   *)
(* "sum" gives how many different sites there are for accelerated and for  *)
(* emulated operations, and how many lines were not a report.              *)
(***************************************************************************)
EXTENDS TraceLog, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, who, sites, bad
cvars == <<l, who, sites, bad>>
Range(q) == {q[i]: i \in DOMAIN q}
Count(q, s) == Cardinality({i \in DOMAIN q: q[i] = s})
NoDup(q) == Cardinality(Range(q)) = Len(q)
Names == 1..40
Nobody == [t \in Names |-> {}]
CInit == l = 1 /\ who = Nobody /\ sites = <<>> /\ bad = 0
         /\ seen = 0 /\ todo = 0 /\ wlog = 0 /\ log = 0 /\ out = 0 /\ runs = 0 /\ past = 0

Union(e) == UNION {sites[e.os[i]]: i \in DOMAIN e.os}
\* An operation known to be emulated or accelerated (one of them) says so; one known to be both says one of them.
Kinds(e) == IF e.wanthard /\ e.wantsoft THEN e.hard \/ e.soft ELSE (e.wanthard => e.hard) /\ (e.wantsoft => e.soft)
Good(e) ==
    CASE e.c = "boot" -> e.out = <<>> /\ e.log = <<>>
      [] e.c = "end" -> e.out = <<>> /\ e.log = <<>>
      [] e.c = "learn" -> NoDup(e.out) /\ e.log = e.out /\ e.same /\ Kinds(e)
      [] e.c = "run" -> /\ e.same /\ NoDup(e.out) /\ e.log = e.out
                        /\ Range(e.out) = Owed(who, e.t, sites[e.o])
      [] e.c = "conc" -> /\ e.same
                         /\ LET S == Union(e) T == Range(e.ts)
                            IN \A s \in S \cup Range(e.out) \cup Range(e.log):
                                  LET n == OwedTogether(who, T, S, s)
                                  IN Count(e.out, s) = n /\ Count(e.log, s) = n
      [] e.c = "sum" -> e.hard > 0 /\ e.soft > 0 /\ e.junk = 0 /\ e.stray = 0
Step ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       /\ bad' = IF Good(e) THEN bad ELSE bad + 1
       /\ IF Good(e) THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|")
       /\ sites' = IF e.c = "learn" THEN Append(sites, Range(e.out)) ELSE sites
       /\ who' = CASE e.c = "boot" -> Nobody
                   [] e.c = "run" -> AfterRun(who, e.t, sites[e.o])
                   [] e.c = "end" -> AfterEnd(who, e.t)
                   [] e.c = "conc" -> AfterTogether(who, Range(e.ts), Union(e))
                   [] OTHER -> who
    /\ UNCHANGED vars
Finish == /\ l = Len(Trace) + 1
          /\ PrintT("RESULT|" \o ToString(bad) \o "|" \o ToString(Len(Trace)))
          /\ l' = l + 1 /\ UNCHANGED <<who, sites, bad>> /\ UNCHANGED vars
CNext == Step \/ Finish
CSpec == CInit /\ [][CNext]_<<cvars, vars>>
=============================================================================
