------------------------------ MODULE ForestGen ------------------------------
(***************************************************************************)
(* Schedules for the real code: one shortest history of calls for every    *)
(* distinct state of the engine model (node store, unique table, computed  *)
(* tables, free list, handles) reachable with MaxCalls calls.  Each is     *)
(* printed and replayed by the harness (mode "script"); the recorded trace *)
(* is then checked against DDTrace.                                        *)
(***************************************************************************)
EXTENDS ForestMC, Json
VARIABLE hist
GInit == Init /\ hist = << >>
GNext == Next /\ hist' = Append(hist, act')
GSpec == GInit /\ [][GNext]_<<vars, hist>>
GView == <<node, uniq, memo, ite, free, hid, fn, calls>>
Emit == calls = MaxCalls /\ act[1] # "drop" => PrintT("SCHED " \o ToJson(hist))
=============================================================================
