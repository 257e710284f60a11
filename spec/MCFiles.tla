------------------------------- MODULE MCFiles -------------------------------
(* Enumerates paths in given file systems and asks every validator.         *)
(* SHARG_CONFIGS: << [id, nodes, names (first components), more (further ones), depth, validators, partners] >>     *)
EXTENDS FileValidators, Json, IOUtils

Configs == JsonDeserialize(IOEnv.SHARG_CONFIGS)
FsOf(nodes) == [p \in {nodes[i].path : i \in DOMAIN nodes} |-> LET i == CHOOSE i \in DOMAIN nodes : nodes[i].path = p IN nodes[i]]
Systems == [c \in DOMAIN Configs |-> FsOf(Configs[c].nodes)]

VARIABLES c, comps
vars == <<c, comps>>
RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "/" \o Join(Tail(s))
Path == Join(comps)
Fs == Systems[c]

(* relative paths: no empty first component, except for the empty path *)
Init == c \in DOMAIN Configs /\ \E i \in DOMAIN Configs[c].names : comps = <<Configs[c].names[i]>>
Next == \E i \in DOMAIN Configs[c].more :
          /\ Len(comps) < Configs[c].depth
          /\ comps /= <<"">>
          /\ comps' = Append(comps, Configs[c].more[i])
          /\ c' = c
Spec == Init /\ [][Next]_vars

V(k) == Configs[c].validators[k]
Acc(k) == AcceptsPath(Fs, V(k), Path)
-------------------------------- (* the design *) -----------------------------
(* An input file validator and a create_new output file validator never agree; directories are no files. *)
Disjoint == \A j, k \in DOMAIN Configs[c].validators :
    /\ (V(j).kind = "infile" /\ V(k).kind = "outfile" /\ ~V(k).over) => ~(Acc(j) /\ Acc(k))
    /\ (V(j).kind = "infile" /\ V(k).kind = "indir") => ~(Acc(j) /\ Acc(k))
    /\ (V(j).kind = "outfile" /\ V(k).kind = "indir") => ~(Acc(j) /\ Acc(k))
(* Whoever accepts with extensions accepts without; open_or_create accepts whatever create_new accepts; and a umask     *)
(* that takes less accepts more. *)
Less(a, b) == \A i \in 1..Len(a) : HasChar(b, Ch(a, i))
Monotone == \A j, k \in DOMAIN Configs[c].validators :
    /\ (V(j).kind = V(k).kind /\ V(j).over = V(k).over /\ V(k).exts = <<>> /\ Less(V(k).mask, V(j).mask)) => (Acc(j) => Acc(k))
    /\ (V(j).kind = "outfile" /\ V(k).kind = "outfile" /\ ~V(j).over /\ V(k).over /\ V(j).exts = V(k).exts /\ V(j).mask = V(k).mask) => (Acc(j) => Acc(k))
(* The deviation removes exactly one entry. *)
SmallDeviation == \A k \in DOMAIN Configs[c].validators : Cardinality(Removed(Fs, V(k), Path)) <= 1

Gone(k, ps) == DOMAIN Fs \ DOMAIN Deviate(Fs, V(k), ps)
One(k, ps) == [v |-> k, paths |-> ps, ok |-> AcceptsAll(Fs, V(k), ps), gone |-> Gone(k, ps)]
Lists == [i \in DOMAIN Configs[c].partners |->
             IF i % 2 = 0 THEN <<Path, Configs[c].partners[i]>> ELSE <<Configs[c].partners[i], Path>>]
Emit == \A k \in DOMAIN Configs[c].validators :
          SpecifiedPath(Fs, V(k), Path) =>
            /\ PrintT(ToJson([c |-> Configs[c].id] @@ One(k, <<Path>>)))
            /\ \A i \in DOMAIN Lists :
                 PrintT(ToJson([c |-> Configs[c].id] @@ One(k, Lists[i])))
=============================================================================
