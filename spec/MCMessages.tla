----------------------------- MODULE MCMessages ------------------------------
(* Enumerates command lines like MCParser and prints, for those that fail,  *)
(* who may be blamed for it.                                                *)
EXTENDS MCParser, Messages

Blame(drop) == LET o == Outcome(st, drop) IN
    IF o.kind /= "err" THEN {} ELSE {[class |-> k, who |-> Culprits(st.frames[o.at], k, drop)] : k \in o.classes}
(* There is somebody to blame for every mistake, and nobody for the others. *)
SomebodyToBlame == LET o == Outcome(st, FALSE) f == st.frames[o.at] IN
    o.kind = "err" => \A k \in Weak!ParserErrors :
        /\ k \in o.classes => Culprits(f, k, FALSE) /= {}
        /\ (f.mode \in {"open", "value", "rest", "handoff"} /\ f.page = "" /\ k \notin o.classes) => Culprits(f, k, FALSE) = {}
EmitBlame == LET o == Outcome(st, FALSE) IN
    o.kind = "err" => PrintT(ToJson([c |-> Configs[c].id, argv |-> argv, at |-> o.at, classes |-> o.classes, blame |-> Blame(FALSE),
                                     alt |-> IF EmptyPos(st) THEN <<[at |-> Outcome(st, TRUE).at, blame |-> Blame(TRUE)]>> ELSE <<>>]))
=============================================================================
