------------------------------ MODULE Lifecycle ------------------------------
(* The life of a parser object: declarations, moves, parse() once, queries. *)
(*                                                                          *)
(* A call is a record; call.fn is one of                                    *)
(*   option, flag, positional  - [short, long, type, list, req, adv, hid,   *)
(*                                defmsg, true, chain, def]                 *)
(*   subcommands - [names]   section, subsection, line, list_item           *)
(*   move, assign            parse         sub      query - [id]            *)
(* Apply(s, call) = the set of [res, s] that the call may lead to; it has   *)
(* exactly one element wherever the behaviour is specified and is {} where  *)
(* it is not (e.g. reusing the identifier of a rejected declaration).       *)
EXTENDS Parser

IdChars  == Alnum \cup {"_", "@"}
NameOk(n) == n /= "" /\ CharsIn(n, Alnum \cup {"_", "-"})
Reserved == {"h", "hh", "help", "advanced-help", "export-help", "version", "copyright"}
IdsOf(call) == {call.short, call.long} \ {""}

(* s = the current parser object and the variables *)
NewObject(app, argv, subs) ==
    [app |-> app, argv |-> argv, phase |-> "open", used |-> Reserved, tainted |-> {}, decl |-> [app |-> app, opts |-> <<>>, flags |-> <<>>, pos |-> <<>>, subs |-> subs],
     bound |-> [opts |-> <<>>, flags |-> <<>>, pos |-> <<>>], set |-> {}, rest |-> <<>>, via |-> ""]
----------------------------- (* declarations *) -----------------------------
BadIds(s, c) ==
    \/ c.short = "" /\ c.long = ""
    \/ c.short /= "" /\ (c.short \notin IdChars \/ c.short \in s.used)
    \/ c.long /= "" /\ \/ Len(c.long) = 1
                       \/ Head1(c.long) = "-"
                       \/ ~CharsIn(c.long, IdChars \cup {"-"})
                       \/ c.long \in s.used
HasListPos(s) == \E i \in DOMAIN s.decl.pos : s.decl.pos[i].list
Invalid(s, c) ==
    CASE c.fn = "option"     -> BadIds(s, c) \/ (c.req /\ c.defmsg /= "")
      [] c.fn = "flag"       -> BadIds(s, c) \/ c.defmsg /= "" \/ c.true
      [] c.fn = "positional" -> c.short /= "" \/ c.long /= "" \/ c.adv \/ c.hid \/ c.defmsg /= ""
                                \/ s.decl.subs /= <<>> \/ HasListPos(s)
      [] OTHER -> FALSE

Declares == {"option", "flag", "positional"}
NoCell == <<>>
DefaultCell(c) == IF c.fn = "flag" THEN <<IF c.true THEN "true" ELSE "false">> ELSE c.def

(* n = index of the call *)
Accept(s, c, n) ==
    CASE c.fn = "option" ->
           [s EXCEPT !.used = @ \cup IdsOf(c), !.bound.opts = Append(@, n),
                     !.decl.opts = Append(@, [short |-> c.short, long |-> c.long, type |-> c.type, list |-> c.list, req |-> c.req,
                                              chain |-> c.chain, def |-> c.def])]
      [] c.fn = "flag" ->
           [s EXCEPT !.used = @ \cup IdsOf(c), !.bound.flags = Append(@, n),
                     !.decl.flags = Append(@, [short |-> c.short, long |-> c.long])]
      [] c.fn = "positional" ->
           [s EXCEPT !.bound.pos = Append(@, n),
                     !.decl.pos = Append(@, [type |-> c.type, list |-> c.list, chain |-> c.chain])]

SubDecls(names) == [i \in DOMAIN names |-> [name |-> names[i], decl |->
                       [app |-> "", opts |-> <<>>, flags |-> <<>>, pos |-> <<>>, subs |-> <<>>]]]

--------------------------------- (* parsing *) ------------------------------
NamesOk(s) == NameOk(s.app) /\ \A i \in DOMAIN s.decl.subs : NameOk(s.decl.subs[i].name)
Unspecified == <<"any">>

(* What parse() does: [kind, classes, page] and, per bound call, the value of its variable *)
ParseResult(s) ==
    IF ~NamesOk(s) THEN [kind |-> "err", classes |-> {"design_error"}, page |-> ""]
    ELSE LET r == FrameResult(Run(s.decl, s.argv).frames[1], FALSE) IN
         CASE r[1] = "err"  -> [kind |-> "err", classes |-> r[2], page |-> ""]
           [] r[1] = "page" -> [kind |-> "page", classes |-> {}, page |-> r[2]]
           [] r[1] = "ok"   -> [kind |-> "ok", classes |-> {}, page |-> ""]
IndexIn(x, seq) == CHOOSE i \in DOMAIN seq : seq[i] = x
CellsAfter(s, cells) ==
    LET r == ParseResult(s) v == FrameValues(Run(s.decl, s.argv).frames[1], FALSE) IN
    [n \in DOMAIN cells |->
        IF InSeq(n, s.bound.opts) THEN (IF r.kind = "ok" THEN v.opts[IndexIn(n, s.bound.opts)] ELSE IF NamesOk(s) THEN Unspecified ELSE cells[n])
        ELSE IF InSeq(n, s.bound.flags) THEN
             (IF r.kind = "ok" THEN <<IF v.flags[IndexIn(n, s.bound.flags)] THEN "true" ELSE "false">> ELSE IF NamesOk(s) THEN Unspecified ELSE cells[n])
        ELSE IF InSeq(n, s.bound.pos) THEN
             (IF r.kind = "ok" THEN v.pos[IndexIn(n, s.bound.pos)] ELSE IF NamesOk(s) THEN Unspecified ELSE cells[n])
        ELSE cells[n]]

Parsed(s) ==
    LET r == ParseResult(s) f == Run(s.decl, s.argv).frames IN
    IF r.kind = "ok" THEN
        [s EXCEPT !.phase = "parsed", !.set = GivenIds(f[1]),
                  !.via = IF Len(f) > 1 THEN f[1].via ELSE "",
                  !.rest = IF Len(f) > 1 THEN SubSeq(s.argv, Len(f[1].attr) + 1, Len(s.argv)) ELSE <<>>]
    ELSE [s EXCEPT !.phase = IF r.kind = "page" THEN "gone" ELSE "failed"]

---------------------------------- (* calls *) -------------------------------
Res(k)     == [kind |-> k, classes |-> {}, page |-> ""]
DesignError == [kind |-> "err", classes |-> {"design_error"}, page |-> ""]

QueryIds(s) == UNION {OptIds(s.decl.opts[i]) : i \in DOMAIN s.decl.opts}
Query(s, id) ==
    IF s.phase = "open" THEN DesignError
    ELSE IF id \notin QueryIds(s) THEN DesignError
    ELSE IF s.phase = "failed" THEN Res("any")
    ELSE Res(IF id \in s.set THEN "t" ELSE "f")

(* [res, s, cells]; the variable of the n-th call is cells[n] *)
Apply(s, cells, c) ==
    LET n == Len(cells) + 1 IN
    IF s.phase = "gone" THEN {}
    ELSE IF c.fn \in Declares THEN
        IF s.phase /= "open" \/ Invalid(s, c) THEN
            {[res |-> DesignError, s |-> IF s.phase = "open" THEN [s EXCEPT !.tainted = @ \cup (IdsOf(c) \ s.used)] ELSE s,
              cells |-> Append(cells, DefaultCell(c))]}
        ELSE IF IdsOf(c) \cap s.tainted /= {} THEN {}
        ELSE {[res |-> Res("ok"), s |-> Accept(s, c, n), cells |-> Append(cells, DefaultCell(c))]}
    ELSE IF c.fn \in {"section", "subsection", "line", "list_item"} THEN
        {[res |-> IF s.phase = "open" THEN Res("ok") ELSE DesignError, s |-> s, cells |-> Append(cells, NoCell)]}
    ELSE IF c.fn = "subcommands" THEN
        IF s.phase /= "open" THEN {[res |-> DesignError, s |-> s, cells |-> Append(cells, NoCell)]}
        ELSE IF s.decl.pos /= <<>> THEN {}
        ELSE {[res |-> Res("ok"), cells |-> Append(cells, NoCell),
               s |-> [s EXCEPT !.decl.subs = @ \o SubDecls(SelectSeq(c.names, LAMBDA m : m \notin SubNames(s.decl)))]]}
    ELSE IF c.fn \in {"move", "assign"} THEN {[res |-> Res("ok"), s |-> s, cells |-> Append(cells, NoCell)]}
    ELSE IF c.fn = "parse" THEN
        IF s.phase /= "open" THEN {[res |-> DesignError, s |-> s, cells |-> Append(cells, NoCell)]}
        ELSE {[res |-> ParseResult(s), s |-> Parsed(s), cells |-> Append(CellsAfter(s, cells), NoCell)]}
    ELSE IF c.fn = "sub" THEN
        IF s.phase = "failed" /\ s.decl.subs /= <<>> THEN {}
        ELSE IF s.phase = "parsed" /\ s.via /= ""
             THEN {[res |-> Res("ok"), s |-> NewObject(s.app \o "-" \o s.via, s.rest, <<>>), cells |-> Append(cells, NoCell)]}
             ELSE {[res |-> DesignError, s |-> s, cells |-> Append(cells, NoCell)]}
    ELSE IF c.fn = "query" THEN
        \* flags and identifiers of rejected declarations: not specified
        IF \/ \E i \in s.tainted : c.id \in {"-" \o i, "--" \o i}
           \/ \E i \in DOMAIN s.decl.flags : c.id \in OptIds(s.decl.flags[i]) THEN {}
        ELSE {[res |-> Query(s, c.id), s |-> s, cells |-> Append(cells, NoCell)]}
    ELSE {}
=============================================================================
