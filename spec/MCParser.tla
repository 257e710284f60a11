------------------------------ MODULE MCParser ------------------------------
(* Enumerates command lines: every reachable state is one command line, the *)
(* state of the machine after it, and its outcome, which is printed as a    *)
(* test vector for the real parser.  The programs and token alphabets come  *)
(* from a JSON file: << [id, decl, alphabet, depth] >>.                     *)
EXTENDS Parser, Json, IOUtils, TLCExt

Configs == JsonDeserialize(IOEnv.SHARG_CONFIGS)

VARIABLES
    c,      \* which program
    argv,   \* the command line so far
    st      \* the state of the machine
vars == <<c, argv, st>>

Init == /\ c \in DOMAIN Configs
        /\ argv = <<>>
        /\ st = Start(Configs[c].decl)

AppendToken == \E a \in DOMAIN Configs[c].alphabet :
             /\ Len(argv) < Configs[c].depth
             /\ argv' = Append(argv, Configs[c].alphabet[a])
             /\ st' = Consume(st, Configs[c].alphabet[a])
             /\ c' = c
Next == AppendToken
Spec == Init /\ [][Next]_vars

-------------------------------- (* the design *) -----------------------------
IsPrefixSeq(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* C02: every token is attributed, exactly once. *)
RECURSIVE SumLen(_)
SumLen(fs) == IF fs = <<>> THEN 0 ELSE Len(Head(fs).attr) + SumLen(Tail(fs))
Conservation == SumLen(st.frames) = Len(argv)

Kind(f, k) == Cardinality({i \in DOMAIN f.attr : f.attr[i] = k})
(* C02: a frame that succeeds has used every token as an identifier, a value, a flag, a cluster, a positional, *)
(* `--` or a subcommand, and the numbers add up. *)
Balanced ==
    Outcome(st, FALSE).kind = "ok" =>
      \A i \in DOMAIN st.frames :
        LET f == st.frames[i] v == FrameValues(f, FALSE) IN
        /\ Kind(f, "unknown") = 0 /\ Kind(f, "ignored") = 0 /\ Kind(f, "unknownsub") = 0
        /\ Kind(f, "id") = Kind(f, "value")
        /\ Len(f.binds) = Kind(f, "value") + Kind(f, "attached")
        /\ Len(FlattenS(v.pos)) = Len(f.posn)
        /\ \A o \in DOMAIN f.decl.opts : f.decl.opts[o].list \/ Len(Occ(f, o)) <= 1
        /\ \A p \in DOMAIN f.decl.pos : v.pos[p] /= <<>>
        /\ \A o \in DOMAIN f.decl.opts : f.decl.opts[o].req => Occ(f, o) /= <<>>
        /\ \A g \in DOMAIN f.decl.flags : FlagTimes(f, g) <= 1

(* C01: an option that is not mentioned keeps its default. *)
Untouched == \A i \in DOMAIN st.frames : LET f == st.frames[i] IN
    \A o \in DOMAIN f.decl.opts : Occ(f, o) = <<>> => OptValue(f, o) = f.decl.opts[o].def

(* C07: a page is only ever printed because a special token was consumed as such, or nothing was given. *)
PageJustified == Outcome(st, FALSE).kind = "page" =>
    LET f == st.frames[Outcome(st, FALSE).at] IN
    IF Outcome(st, FALSE).page = "shorthelp" THEN NothingGiven(f) ELSE Kind(f, "special") > 0

(* C08: nothing behind a subcommand is visible to the parsers in front of it. *)
SubIsolation == \A i \in 2..Len(st.frames) :
    /\ st.frames[i-1].mode = "handoff"
    /\ st.frames[i].name = st.frames[i-1].name \o "-" \o st.frames[i-1].via

(* C03: behind `--` only positionals (or a subcommand hand-off) change. *)
AfterDD == [][ \A i \in DOMAIN st.frames : st.frames[i].mode \in {"rest", "handoff", "halt"} =>
                 /\ st'.frames[i].binds = st.frames[i].binds
                 /\ st'.frames[i].flagged = st.frames[i].flagged
                 /\ st'.frames[i].page = st.frames[i].page
                 /\ st'.frames[i].vcheck = st.frames[i].vcheck
                 /\ st'.frames[i].bad = st.frames[i].bad
                 /\ IsPrefixSeq(st.frames[i].posn, st'.frames[i].posn) ]_vars

(* C21: every command line has a result, and it is one of those that Endings.tla permits. *)
Weak == INSTANCE Endings WITH run <- "parsing"
Ends == LET o == Outcome(st, FALSE) IN
    \/ o.kind = "ok"
    \/ o.kind = "err" /\ o.classes /= {} /\ o.classes \subseteq Weak!ParserErrors
    \/ o.kind = "page" /\ o.page \in Weak!Pages

(* C06: the groups of the first frame (identifier with value, cluster, positional) may be permuted as long as   *)
(* positionals and occurrences of the same option keep their order; values do not change.                       *)
RECURSIVE Groups(_, _, _)
Groups(a, attr, i) == IF i > Len(a) THEN <<>>
    ELSE IF attr[i] = "id" /\ i < Len(a) THEN <<SubSeq(a, i, i + 1)>> \o Groups(a, attr, i + 2)
    ELSE <<SubSeq(a, i, i)>> \o Groups(a, attr, i + 1)
GroupAttr(f) == SelectSeq(f.attr, LAMBDA k : k /= "value")
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i /= j => p[i] /= p[j]}
KeepsOrder(p, g, attr, f) ==
    \A i, j \in DOMAIN p : i < j /\ p[i] > p[j] =>
        \/ attr[p[i]] \notin {"pos"} \/ attr[p[j]] \notin {"pos"}
OptKeyOf(f, g, k) ==  \* the option a group belongs to
    IF k = "id" THEN Pick(ExactOpt(f.decl, g[1]))
    ELSE IF k = "attached" THEN (IF ShortAtt(f.decl, g[1]) /= {} THEN Pick(ShortAtt(f.decl, g[1])) ELSE Pick(LongAtt(f.decl, g[1])))
    ELSE 0
SameOptOrder(p, g, attr, f) ==
    \A i, j \in DOMAIN p : i < j /\ p[i] > p[j] =>
        LET a == OptKeyOf(f, g[p[i]], attr[p[i]]) b == OptKeyOf(f, g[p[j]], attr[p[j]]) IN a = 0 \/ a /= b
Permuted(p, g) == FlattenS([i \in DOMAIN p |-> g[p[i]]])
OrderIndependent ==
    (Len(st.frames) = 1 /\ Len(argv) <= Configs[c].permdepth /\ Outcome(st, FALSE).kind = "ok" /\ Kind(st.frames[1], "dd") = 0) =>
      LET f == st.frames[1] g == Groups(argv, f.attr, 1) ga == GroupAttr(f) IN
      \A p \in Perms(Len(g)) : KeepsOrder(p, g, ga, f) /\ SameOptOrder(p, g, ga, f) =>
         LET q == Run(f.decl, Permuted(p, g)) IN
         /\ Outcome(q, FALSE).kind = "ok"
         /\ [Values_(q, FALSE)[1] EXCEPT !.set = {}] = [Values_(st, FALSE)[1] EXCEPT !.set = {}]
         /\ Values_(q, FALSE)[1].set = Values_(st, FALSE)[1].set

------------------------------- (* test vectors *) ---------------------------
Vector(drop) == LET o == Outcome(st, drop) IN
    [kind |-> o.kind, classes |-> o.classes, page |-> o.page, at |-> o.at, frames |-> Values_(st, drop)]
Emit == PrintT(ToJson([c |-> Configs[c].id, argv |-> argv, out |-> Vector(FALSE),
                       alt |-> IF EmptyPos(st) THEN <<Vector(TRUE)>> ELSE <<>>]))
=============================================================================
