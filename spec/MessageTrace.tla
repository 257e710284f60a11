---------------------------- MODULE MessageTrace -----------------------------
(* Validates recorded runs like ParserTrace and, in addition, the messages  *)
(* of the exceptions (field msg of the observation).                        *)
EXTENDS ParserTrace, Messages

Blamed(r) == r.kind = "err" /\ r.class /= "design_error" =>
    \/ Justified(st.frames[r.at], r.class, FALSE, r.msg)
    \/ EmptyPos(st) /\ Justified(st.frames[r.at], r.class, TRUE, r.msg)
MsgEnd  == TraceEnd /\ (Blamed(Trace[l].r) = TRUE)
MsgSpec == TraceInit /\ [][TraceStart \/ TraceToken \/ MsgEnd]_vars
=============================================================================
