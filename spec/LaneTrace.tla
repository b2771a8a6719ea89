------------------------------ MODULE LaneTrace ------------------------------
(***************************************************************************)
(* Is the outcome of every logged call one which Lanes allows?             *)
(* Environment: TRACE (ndjson file of calls).                              *)
(***************************************************************************)
EXTENDS Lanes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, calls, skipped
vars == <<l, bad, calls, skipped>>
Init == l = 1 /\ bad = 0 /\ calls = 0 /\ skipped = 0
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET c == Trace[l]
           IN IF ~Specified(c) THEN skipped' = skipped + 1 /\ UNCHANGED <<bad, calls>>
              ELSE /\ calls' = calls + 1 /\ UNCHANGED skipped
                   /\ IF Allowed(c) THEN UNCHANGED bad ELSE PrintT("BAD|" \o ToString(l) \o "|") /\ bad' = bad + 1
Finish == /\ l = Len(Trace) + 1
          /\ PrintT("RESULT|" \o ToString(bad) \o "|" \o ToString(calls) \o "|" \o ToString(skipped))
          /\ l' = l + 1 /\ UNCHANGED <<bad, calls, skipped>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
