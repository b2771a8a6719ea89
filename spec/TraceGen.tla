------------------------------ MODULE TraceGen ------------------------------
(***************************************************************************)
(* Programs of commands for the trace feature: which thread runs which of  *)
(* three operations, when threads end, when threads run together.  Every   *)
(* program of LENGTH commands up to renaming is printed as "P|...".        *)
(* The operations are chosen by the check.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils
N == atoi(IOEnv.LENGTH)
Names == 1..3
Slots == 1..3
VARIABLES prog, text, live, used, slots, concs
vars == <<prog, text, live, used, slots, concs>>
Init == prog = 0 /\ text = "P" /\ live = {} /\ used = 0 /\ slots = 0 /\ concs = 0
\* names and slots are introduced in order, so renamed programs are met once
Fresh(x, n) == x <= n + 1
Max(x, y) == IF x > y THEN x ELSE y
Run == \E t \in Names, o \in Slots:
    /\ Fresh(t, used) /\ Fresh(o, slots)
    /\ used' = Max(used, t) /\ slots' = Max(slots, o) /\ live' = live \cup {t}
    /\ text' = text \o "|r" \o ToString(t) \o ToString(o)
    /\ UNCHANGED concs
End == \E t \in live:
    /\ live' = live \ {t}
    /\ text' = text \o "|e" \o ToString(t)
    /\ UNCHANGED <<used, slots, concs>>
Together == \E k \in 2..3, m \in 1..3:
    /\ concs = 0 /\ k <= used + 1 /\ m <= slots + 1
    /\ concs' = 1 /\ used' = Max(used, k) /\ slots' = Max(slots, m) /\ live' = live \cup 1..k
    /\ text' = text \o "|c" \o ToString(k) \o ToString(m)
Next == prog < N /\ prog' = prog + 1 /\ (Run \/ End \/ Together)
Spec == Init /\ [][Next]_vars
Emit == prog = N => PrintT(text)
=============================================================================
