---------------------------- MODULE EndingsTrace -----------------------------
(* Validates recorded endings: one event [kind, class, emptymsg, code, out, *)
(* closed] per run of the real parser.                                      *)
EXTENDS Endings, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.SHARG_TRACE)
VARIABLE l
TraceInit == l = 1 /\ EndInit
(* A run that ends in any other way has no step here. *)
TraceNext == \/ (Parse \/ Restart) /\ l <= Len(Trace) /\ l' = l
             \/ l <= Len(Trace) /\ l' = l + 1 /\ (Returns(Trace[l]) \/ Throws(Trace[l]) \/ Exits(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, run>>
(* the highest position that was reached *)
Reached == TLCSet(1, IF TLCGet(1) > l THEN TLCGet(1) ELSE l)
ASSUME TLCSet(1, 0)
TraceAccepted == PrintT(ToJson([reached |-> TLCGet(1)])) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
