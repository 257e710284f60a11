----------------------------- MODULE MCLifecycle -----------------------------
(* Enumerates sequences of calls on a parser object.                        *)
(* SHARG_CONFIGS: << [id, app, argv, subs, calls, depth] >>                 *)
EXTENDS Lifecycle, Json, IOUtils

Configs == JsonDeserialize(IOEnv.SHARG_CONFIGS)

VARIABLES c, hist, res, s, cells
vars == <<c, hist, res, s, cells>>

Init == /\ c \in DOMAIN Configs
        /\ hist = <<>> /\ res = <<>> /\ cells = <<>>
        /\ s = NewObject(Configs[c].app, Configs[c].argv, SubDecls(Configs[c].subs))
Next == \E i \in DOMAIN Configs[c].calls :
          /\ Len(hist) < Configs[c].depth
          /\ \E a \in Apply(s, cells, Configs[c].calls[i]) :
               /\ hist' = Append(hist, i)
               /\ res' = Append(res, a.res)
               /\ s' = a.s
               /\ cells' = a.cells
               /\ c' = c
Spec == Init /\ [][Next]_vars

Fn(i) == Configs[c].calls[hist[i]].fn
Parses == {i \in DOMAIN hist : Fn(i) = "parse" /\ res[i] /= DesignError}
Subs   == {i \in DOMAIN hist : Fn(i) = "sub" /\ res[i].kind = "ok"}

(* C22: parse() does something at most once per parser object. *)
OnlyOnce == Cardinality(Parses) <= Cardinality(Subs) + 1
(* C22: nothing is accepted between parse() and the step to the sub-parser. *)
NothingAfter == \A i, j \in DOMAIN hist :
    (i < j /\ i \in Parses /\ ~\E k \in Subs : i < k /\ k < j) =>
        Fn(j) \in {"move", "assign", "sub", "query"} \/ res[j] = DesignError
(* C22: variables change in parse() only. *)
WrittenOnlyByParse == [][ (\E n \in DOMAIN cells : cells'[n] /= cells[n]) =>
                           Configs[c].calls[LastOf(hist')].fn = "parse" ]_vars
(* C22: moving changes nothing. *)
MovesAreSilent == [][ Configs[c].calls[LastOf(hist')].fn \in {"move", "assign"} => s' = s ]_vars
(* C09: accepted identifiers are well-formed and belong to one declaration only; a positional list is the last positional. *)
Sane == LET d == s.decl
            ids == [i \in 1..(Len(d.opts) + Len(d.flags)) |->
                      IF i <= Len(d.opts) THEN {d.opts[i].short, d.opts[i].long} \ {""}
                      ELSE {d.flags[i - Len(d.opts)].short, d.flags[i - Len(d.opts)].long} \ {""}] IN
        /\ \A i \in DOMAIN ids : ids[i] /= {} /\ ids[i] \cap Reserved = {}
        /\ \A i, j \in DOMAIN ids : i /= j => ids[i] \cap ids[j] = {}
        /\ \A i \in DOMAIN ids : \A x \in ids[i] : CharsIn(x, IdChars \cup {"-"}) /\ Head1(x) /= "-"
        /\ \A p \in DOMAIN d.pos : d.pos[p].list => p = Len(d.pos)
        /\ d.subs = <<>> \/ d.pos = <<>>

Calls == [i \in DOMAIN hist |-> Configs[c].calls[hist[i]]]
Emit == hist /= <<>> =>
        PrintT(ToJson([c |-> Configs[c].id, app |-> Configs[c].app, argv |-> Configs[c].argv, subs |-> Configs[c].subs,
                       h |-> hist, res |-> res, cells |-> cells]))
=============================================================================
