---------------------------- MODULE LifecycleTrace ---------------------------
(* Validates recorded lives of parser objects against Lifecycle.tla.        *)
(*   [e |-> "new", app, argv, subs], [e |-> "call", call, res, cells]       *)
(* where res = [kind, class, page] and cells = the values of all variables. *)
EXTENDS Lifecycle, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.SHARG_TRACE)
VARIABLES l, s, cells
vars == <<l, s, cells>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

ResOk(obs, exp) ==
    CASE exp.kind = "any"  -> obs.kind \in {"t", "f"}
      [] exp.kind = "err"  -> obs.kind = "err" /\ obs.class \in exp.classes
      [] exp.kind = "page" -> obs.kind = "page" /\ (obs.page = exp.page \/ {obs.page, exp.page} = {"help", "advhelp"})
      [] OTHER             -> obs.kind = exp.kind
(* Variables with unspecified content keep whatever they contain. *)
CellsOk(obs, exp, before) ==
    /\ Len(obs) = Len(exp)
    /\ \A n \in DOMAIN exp : exp[n] = Unspecified \/ obs[n] = exp[n]

TraceInit == l = 1 /\ s = NewObject("", <<>>, <<>>) /\ cells = <<>>
TraceNew  == /\ IsEvent("new")
             /\ s' = NewObject(Trace[l].app, Trace[l].argv, SubDecls(Trace[l].subs)) /\ cells' = <<>>
TraceCall == /\ IsEvent("call")
             /\ \E a \in Apply(s, cells, Trace[l].call) :
                  /\ ResOk(Trace[l].res, a.res)
                  /\ a.res.kind = "page" \/ CellsOk(Trace[l].cells, a.cells, cells)
                  /\ s' = a.s
                  /\ cells' = IF a.res.kind = "page" THEN a.cells ELSE Trace[l].cells
(* A call whose effect is not specified: nothing is known about the rest of this life. *)
TraceUnspecified == /\ IsEvent("call") /\ s.phase /= "gone"
                    /\ s.phase = "unknown" \/ Apply(s, cells, Trace[l].call) = {}
                    /\ s' = [s EXCEPT !.phase = "unknown"] /\ UNCHANGED cells
TraceNext == TraceNew \/ (s.phase /= "unknown" /\ TraceCall) \/ TraceUnspecified
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
