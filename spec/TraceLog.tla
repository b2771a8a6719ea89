------------------------------ MODULE TraceLog ------------------------------
(***************************************************************************)
(* The trace feature: a thread which executes a call site of a fallback    *)
(* or accelerated operation reports it, to the log and to standard output, *)
(* the first time that it does.                                            *)
(*                                                                         *)
(* First the library as threads which interleave between any two writes,   *)
(* with the property as an invariant of it; then the effect of a command   *)
(* (one operation on one thread, several threads at once, the end of a     *)
(* thread) as operators, by which TraceGen makes programs and TraceCheck   *)
(* judges what the real library wrote.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

(* ---- commands ---- *)
\* seen: thread -> sites it reported; Sites: operation -> sites it executes

Owed(seen, t, S) == S \ seen[t]
AfterRun(seen, t, S) == [seen EXCEPT ![t] = @ \cup S]
\* the next thread to use that name is another thread
AfterEnd(seen, t) == [seen EXCEPT ![t] = {}]
\* how often s is reported when each of the threads T executes the sites S
OwedTogether(seen, T, S, s) == IF s \in S THEN Cardinality({t \in T: s \notin seen[t]}) ELSE 0
AfterTogether(seen, T, S) == [t \in DOMAIN seen |-> IF t \in T THEN seen[t] \cup S ELSE seen[t]]

(* ---- threads ---- *)
CONSTANTS Threads, Bodies, MaxRuns   \* Bodies: the operations, as sequences of sites
VARIABLES seen,    \* thread -> the sites its guard holds
          todo,    \* thread -> the sites of the running operation still to execute
          wlog,    \* thread -> its report of Head(todo) is in the log
          log, out,\* how often each site was reported
          runs,    \* thread -> operations begun
          past     \* ghost: <<thread, site>> executed
vars == <<seen, todo, wlog, log, out, runs, past>>

AllSites == UNION {{b[i]: i \in DOMAIN b}: b \in Bodies}

Init ==
  /\ seen = [t \in Threads |-> {}]
  /\ todo = [t \in Threads |-> <<>>]
  /\ wlog = [t \in Threads |-> FALSE]
  /\ log = [s \in AllSites |-> 0]
  /\ out = [s \in AllSites |-> 0]
  /\ runs = [t \in Threads |-> 0]
  /\ past = {}

Begin(t) ==
  /\ todo[t] = <<>> /\ runs[t] < MaxRuns
  /\ \E b \in Bodies: todo' = [todo EXCEPT ![t] = b]
  /\ runs' = [runs EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<seen, wlog, log, out, past>>

Again(t) ==
  /\ todo[t] # <<>> /\ Head(todo[t]) \in seen[t]
  /\ todo' = [todo EXCEPT ![t] = Tail(@)]
  /\ UNCHANGED <<seen, wlog, log, out, runs, past>>

WriteLog(t) ==
  /\ todo[t] # <<>> /\ Head(todo[t]) \notin seen[t] /\ ~wlog[t]
  /\ wlog' = [wlog EXCEPT ![t] = TRUE]
  /\ log' = [log EXCEPT ![Head(todo[t])] = @ + 1]
  /\ UNCHANGED <<seen, todo, out, runs, past>>

WriteOut(t) ==
  /\ todo[t] # <<>> /\ wlog[t]
  /\ wlog' = [wlog EXCEPT ![t] = FALSE]
  /\ out' = [out EXCEPT ![Head(todo[t])] = @ + 1]
  /\ seen' = [seen EXCEPT ![t] = @ \cup {Head(todo[t])}]
  /\ past' = past \cup {<<t, Head(todo[t])>>}
  /\ todo' = [todo EXCEPT ![t] = Tail(@)]
  /\ UNCHANGED <<log, runs>>

Next == \E t \in Threads: Begin(t) \/ Again(t) \/ WriteLog(t) \/ WriteOut(t)
Spec == Init /\ [][Next]_vars

By(s) == Cardinality({t \in Threads: <<t, s>> \in past})
OncePerThread == \A s \in AllSites: out[s] = By(s) /\ log[s] = By(s) + Cardinality({t \in Threads: wlog[t] /\ Head(todo[t]) = s})
GuardIsPast == \A t \in Threads: seen[t] = {s \in AllSites: <<t, s>> \in past}

\* The commands agree with the threads: what is reported and what the running
\* operations still owe, as the commands count it, changes only when an
\* operation begins, and then by what AfterRun says it adds.
Rest(t) == {todo[t][i]: i \in DOMAIN todo[t]}
Total(s) == out[s] + Cardinality({t \in Threads: s \in Owed(seen, t, Rest(t))})
Began == {t \in Threads: runs'[t] # runs[t]}
Promise == [][\A s \in AllSites:
                 Total(s)' = Total(s) + Cardinality({t \in Began: s \in Owed(seen, t, {todo'[t][i]: i \in DOMAIN todo'[t]})})]_vars
=============================================================================
