----------------------------- MODULE ParserTrace -----------------------------
(* Validates recorded runs of the real parser against Parser.tla.           *)
(* The log is a sequence of events                                          *)
(*   [e |-> "start", p |-> index of the program],                           *)
(*   [e |-> "token", t |-> token]  one per command line argument, and       *)
(*   [e |-> "end", r |-> what the program observed]                         *)
EXTENDS Parser, Json, IOUtils

Programs == JsonDeserialize(IOEnv.SHARG_PROGRAMS)
Trace    == ndJsonDeserialize(IOEnv.SHARG_TRACE)

VARIABLES l,    \* position in the trace
          st    \* state of the machine
vars == <<l, st>>

Nothing == [frames |-> <<>>]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
PrefixCalls(a, b) == \A i \in DOMAIN a : IsPrefixOf(a[i], b[i])

FrameOk(obs, exp, complete) ==
    IF complete THEN /\ obs.name = exp.name /\ obs.opts = exp.opts /\ obs.flags = exp.flags /\ obs.pos = exp.pos
                     /\ SetOf(obs.set) = exp.set /\ obs.badprobes = <<>>
                     /\ obs.ocalls = exp.ocalls /\ obs.pcalls = exp.pcalls
    ELSE PrefixCalls(obs.ocalls, exp.ocalls) /\ PrefixCalls(obs.pcalls, exp.pcalls)

(* r = [kind, class, page, at, clean, early, frames] *)
ConformsTo(o, v, r) ==
    /\ r.kind = o.kind
    /\ r.clean          \* no output besides the page, no empty message, exit code 0
    /\ CASE o.kind = "page" -> r.page = o.page /\ r.at = o.at
         [] o.kind = "err"  -> /\ r.class \in o.classes /\ r.at = o.at
                               /\ \A i \in DOMAIN r.frames : FrameOk(r.frames[i], v[i], i < o.at)
         [] o.kind = "ok"   -> /\ Len(r.frames) = Len(v)
                               /\ \A i \in DOMAIN r.frames : FrameOk(r.frames[i], v[i], TRUE)
Conforms(s, r) == \/ ConformsTo(Outcome(s, FALSE), Values_(s, FALSE), r)
                  \/ EmptyPos(s) /\ ConformsTo(Outcome(s, TRUE), Values_(s, TRUE), r)

TraceInit == l = 1 /\ st = Nothing
TraceStart == IsEvent("start") /\ st' = Start(Programs[Trace[l].p])
TraceToken == IsEvent("token") /\ st' = Consume(st, Trace[l].t)
TraceEnd   == IsEvent("end") /\ Conforms(st, Trace[l].r) /\ st' = Nothing
TraceNext == TraceStart \/ TraceToken \/ TraceEnd
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
