----------------------------- MODULE TraceLogMC -----------------------------
(* A small instance of TraceLog: operations which share sites and which     *)
(* execute a site twice, on three threads.                                  *)
EXTENDS TraceLog
MCThreads == 1..3
MCBodies == {<<>>, <<1>>, <<2, 1, 2>>, <<3, 2>>}
=============================================================================
