------------------------------- MODULE MCHelp --------------------------------
(* Enumerates programs (sequences of elements of a pool) and their pages.   *)
(* SHARG_CONFIGS: << [id, base, pool, len, pages] >>                        *)
(* The texts of the i-th element of a pool contain the mark #i#.            *)
EXTENDS HelpPages, Json, IOUtils

Configs == JsonDeserialize(IOEnv.SHARG_CONFIGS)
VARIABLES c, own, page
vars == <<c, own, page>>
Pool == Configs[c].pool
Init == c \in DOMAIN Configs /\ own = <<>> /\ page = "none"
Once(i) == Pool[i].e \notin {"option", "flag"} \/ \A k \in DOMAIN own : own[k] /= i      \* identifiers are unique
Add  == page = "none" /\ Len(own) < Configs[c].len /\ \E i \in DOMAIN Pool : Once(i) /\ own' = Append(own, i) /\ UNCHANGED <<c, page>>
Print1 == page = "none" /\ page' \in SetOf(Configs[c].pages) /\ UNCHANGED <<c, own>>
Next == Add \/ Print1
Spec == Init /\ [][Next]_vars

Done == page /= "none"
In == [k \in (DOMAIN Configs[c].base) \cup {"elems", "page"} |->
        IF k = "elems" THEN [i \in DOMAIN own |-> Pool[own[i]]] ELSE IF k = "page" THEN page ELSE Configs[c].base[k]]
Mark(i) == "#" \o ToString(i) \o "#"
RECURSIVE Marks(_, _)            \* the marks of the pool in the lines, in order
Marks(lines, k) ==
    IF k > Len(lines) THEN <<>>
    ELSE SelectSeq([i \in DOMAIN Pool |-> i], LAMBDA i : Contains(lines[k], Mark(i))) \o Marks(lines, k + 1)
Shows == page \in {"help", "adv", "html", "man", "ctd", "cwl"}
(* C19: every visible element once and in order, nothing else. *)
Complete == Done => Marks(Page(In), 1) = IF Shows THEN SelectSeq(own, LAMBDA i : ~Pool[i].hid /\ (Pool[i].adv => page /= "help") /\ (page \in {"ctd", "cwl"} => Pool[i].e \in {"option", "flag"})) ELSE <<>>
Emit == Done => PrintT(ToJson([c |-> Configs[c].id, own |-> own, page |-> page, lines |-> Page(In)]))
=============================================================================
