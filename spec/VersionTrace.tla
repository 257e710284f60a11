----------------------------- MODULE VersionTrace ----------------------------
(* Validates recorded histories of runs against VersionCheck.tla.           *)
(*  [e |-> "new", files, places]                                            *)
(*  [e |-> "run", in, now, out, files]: out = [yes, asked, told, sent,      *)
(*   result] and the cookie and version files afterwards                    *)
EXTENDS VersionCheck, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.SHARG_TRACE)
FilesOf(list, places) ==
    [p \in SetOf(places) |->
        LET own == {i \in DOMAIN list : list[i].place = p} IN
        [n \in {list[i].name : i \in own} |-> (list[CHOOSE i \in own : list[i].name = n]).text]]
VARIABLES l, files, places
vars == <<l, files, places>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

TraceInit == l = 1 /\ files = <<>> /\ places = <<>>
TraceNew  == /\ IsEvent("new") /\ places' = Trace[l].places
             /\ files' = FilesOf(Trace[l].files, Trace[l].places)
TraceRun  == /\ IsEvent("run")
             /\ LET t == Trace[l] r == Run(files, t.now, t.in) IN
                  /\ t.out.yes = r.out.yes
                  /\ t.out.asked = r.out.asked
                  /\ SetOf(t.out.told) = r.out.told
                  /\ t.out.sent = r.out.sent
                  /\ t.out.result = r.out.result
                  /\ FilesOf(t.files, places) = r.files
                  /\ files' = r.files
             /\ places' = places
TraceNext == TraceNew \/ TraceRun
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
