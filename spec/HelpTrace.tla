------------------------------ MODULE HelpTrace ------------------------------
(* Validates recorded pages: [in, lines, aspect]; aspect "words": only the  *)
(* words have to agree, "exact": everything.                                *)
EXTENDS HelpPages, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.SHARG_TRACE)
VARIABLE l
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, cur) == IF i > Len(s) THEN <<cur>>
                        ELSE IF Ch(s, i) = "\n" THEN <<cur>> \o SplitFrom(s, i + 1, "") ELSE SplitFrom(s, i + 1, cur \o Ch(s, i))
Split(s) == IF HasChar(s, "\n") THEN SplitFrom(s, 1, "") ELSE <<s>>
PhysicalLines(lines) == FlattenS([i \in DOMAIN lines |-> Split(lines[i])])
AllWords(lines) == FlattenS([i \in DOMAIN lines |-> Words(lines[i])])
TraceInit == l = 1
Rejected(x) == PrintT(ToJson([lines |-> x])) /\ FALSE      \* says what was expected
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET page == PhysicalLines(Page(Trace[l].in)) IN
                IF Trace[l].aspect = "exact" THEN Trace[l].lines = page \/ Rejected(page)
                ELSE AllWords(Trace[l].lines) = AllWords(page) \/ Rejected(page)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
