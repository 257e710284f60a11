------------------------------- MODULE Parser -------------------------------
(* The meaning of a command line.                                           *)
(*                                                                          *)
(* A command line is consumed token by token, strictly from left to right:  *)
(* Start(decl) is the state before the first token, Consume(st, tok) the    *)
(* state after one more token, and Outcome(st) what parse() has to do if    *)
(* the command line ends here.  Every token is attributed when it is        *)
(* consumed (st.frames[i].attr), nothing is looked up again later.          *)
(*                                                                          *)
(* decl = [ app   |-> name,                                                 *)
(*          opts  |-> <<[short, long, type, list, req, chain, def]>>,       *)
(*          flags |-> <<[short, long]>>,                                    *)
(*          pos   |-> <<[type, list, chain]>>,                              *)
(*          subs  |-> <<[name, decl]>> ]                                    *)
(* A missing short or long identifier is "".  def is the sequence of the    *)
(* canonical default values, chain a sequence of validators (Validators).   *)
EXTENDS Str, Values, Validators

------------------------------ (* declarations *) ----------------------------
OptIds(o)   == (IF o.short = "" THEN {} ELSE {"-" \o o.short}) \cup (IF o.long = "" THEN {} ELSE {"--" \o o.long})

ExactOpt(d, tok) == {i \in DOMAIN d.opts : tok \in OptIds(d.opts[i])}

(* Attached spellings: -kVALUE, -k=VALUE, --key=VALUE.  Identifiers are unique, so at most one option matches. *)
ShortAtt(d, tok) == {i \in DOMAIN d.opts : /\ d.opts[i].short /= ""
                                           /\ StartsWith(tok, "-" \o d.opts[i].short) /\ Len(tok) > 2}
LongAtt(d, tok)  == {i \in DOMAIN d.opts : d.opts[i].long /= "" /\ StartsWith(tok, "--" \o d.opts[i].long \o "=")}

LongFlag(d, tok) == {i \in DOMAIN d.flags : d.flags[i].long /= "" /\ tok = "--" \o d.flags[i].long}
FlagOf(d, c)     == {i \in DOMAIN d.flags : d.flags[i].short = c}
(* A cluster consists of short flags only, all declared. *)
IsCluster(d, tok) == /\ Len(tok) > 1 /\ Head1(tok) = "-"
                     /\ \A i \in 2..Len(tok) : FlagOf(d, Ch(tok, i)) /= {}
Pick(S) == CHOOSE x \in S : TRUE

SubNames(d)  == {d.subs[i].name : i \in DOMAIN d.subs}
SubDecl(d, n) == d.subs[CHOOSE i \in DOMAIN d.subs : d.subs[i].name = n].decl

---------------------------------- (* frames *) ------------------------------
(* One frame per (sub-)parser. mode:                                        *)
(*   open    - identifiers are recognised                                   *)
(*   value   - the next token is the value of option `pend`                 *)
(*   export, vcheck - the next token is the value of a special option       *)
(*   rest    - behind `--`: everything is positional                        *)
(*   handoff - a subcommand was seen: the tokens belong to the next frame   *)
(*   halt    - the scan failed with exception class `scan`                  *)
NewFrame(name, d) ==
    [name |-> name, decl |-> d, mode |-> "open", pend |-> 0, via |-> "", page |-> "", scan |-> "", vcheck |-> "unset",
     binds |-> <<>>, flagged |-> <<>>, bad |-> <<>>, posn |-> <<>>, attr |-> <<>>]

Bind(f, o, via, val) == [f EXCEPT !.binds = Append(@, [opt |-> o, via |-> via, val |-> val, has |-> TRUE])]
Attr(f, kind)        == [f EXCEPT !.attr = Append(@, kind)]
Halt(f, class)       == [f EXCEPT !.mode = "halt", !.scan = class]

(* `-kVALUE`, `-k=VALUE`; `-k=` lacks a value *)
Attached(f, o, id, rest) ==
    IF rest = "=" THEN Attr([f EXCEPT !.binds = Append(@, [opt |-> o, via |-> id, val |-> "", has |-> FALSE])], "attached")
    ELSE Attr(Bind(f, o, id, IF Head1(rest) = "=" THEN From(rest, 2) ELSE rest), "attached")

ExportValue(f, v) == IF v \in {"html", "man"} THEN [f EXCEPT !.page = v, !.mode = "open"]
                     ELSE IF v \in {"ctd", "cwl"} THEN [f EXCEPT !.page = "tdl", !.mode = "open"]
                     ELSE Halt(f, "validation_error")
VCheckValue(f, v) == IF v \in {"1", "true"} THEN [f EXCEPT !.vcheck = "yes", !.mode = "open"]
                     ELSE IF v \in {"0", "false"} THEN [f EXCEPT !.vcheck = "no", !.mode = "open"]
                     ELSE Halt(f, "validation_error")

PageFor == [t \in {"-h", "--help", "-hh", "--advanced-help", "--version", "--copyright"} |->
              CASE t \in {"-h", "--help"} -> "help"
                [] t \in {"-hh", "--advanced-help"} -> "advhelp"
                [] t = "--version" -> "version"
                [] t = "--copyright" -> "copyright"]

SubOrPositional(f, tok, kind) ==
    IF f.decl.subs /= <<>> /\ tok \in SubNames(f.decl) THEN Attr([f EXCEPT !.mode = "handoff", !.via = tok], "sub")
    ELSE IF f.decl.subs /= <<>> /\ ~StartsWith(tok, "-") THEN Attr(Halt(f, "user_input_error"), "unknownsub")
    ELSE Attr([f EXCEPT !.posn = Append(@, tok)], kind)

OpenStep(f, tok) ==
    LET d == f.decl IN
    IF ExactOpt(d, tok) /= {} THEN Attr([f EXCEPT !.mode = "value", !.pend = Pick(ExactOpt(d, tok)), !.via = tok], "id")
    ELSE IF d.subs /= <<>> /\ (tok \in SubNames(d) \/ ~StartsWith(tok, "-")) THEN SubOrPositional(f, tok, "pos")
    ELSE IF tok = "--" THEN Attr([f EXCEPT !.mode = "rest"], "dd")
    ELSE IF tok \in DOMAIN PageFor THEN Attr([f EXCEPT !.page = PageFor[tok]], "special")
    ELSE IF tok = "--export-help" THEN Attr([f EXCEPT !.mode = "export"], "special")
    ELSE IF StartsWith(tok, "--export-help=") THEN Attr(ExportValue(f, From(tok, 15)), "special")
    ELSE IF tok = "--version-check" THEN Attr([f EXCEPT !.mode = "vcheck"], "special")
    ELSE IF ShortAtt(d, tok) /= {} THEN Attached(f, Pick(ShortAtt(d, tok)), SubSeq(tok, 1, 2), From(tok, 3))
    ELSE IF LongAtt(d, tok) /= {} THEN
         LET o == Pick(LongAtt(d, tok)) id == "--" \o d.opts[o].long IN Attached(f, o, id, From(tok, Len(id) + 1))
    ELSE IF LongFlag(d, tok) /= {} THEN
         Attr([f EXCEPT !.flagged = Append(@, Pick(LongFlag(d, tok)))], "flag")
    ELSE IF IsCluster(d, tok) THEN
         Attr([f EXCEPT !.flagged = @ \o [i \in 1..(Len(tok) - 1) |-> Pick(FlagOf(d, Ch(tok, i + 1)))]], "cluster")
    ELSE IF StartsWith(tok, "-") /\ tok /= "-" THEN Attr([f EXCEPT !.bad = Append(@, tok)], "unknown")
    ELSE Attr([f EXCEPT !.posn = Append(@, tok)], "pos")

StepFrame(f, tok) ==
    CASE f.mode = "open"   -> OpenStep(f, tok)
      [] f.mode = "value"  -> Attr([Bind(f, f.pend, f.via, tok) EXCEPT !.mode = "open"], "value")
      [] f.mode = "export" -> Attr(ExportValue(f, tok), "specialvalue")
      [] f.mode = "vcheck" -> Attr(VCheckValue(f, tok), "specialvalue")
      [] f.mode = "rest"   -> SubOrPositional(f, tok, "verbatim")
      [] f.mode = "halt"   -> Attr(f, "ignored")

------------------------------- (* the machine *) ----------------------------
Start(d) == [frames |-> <<NewFrame(d.app, d)>>]

Consume(st, tok) ==
    LET f == LastOf(st.frames) g == StepFrame(f, tok) IN
    [st EXCEPT !.frames =
        IF g.mode = "handoff" THEN Append(ReplaceLast(@, g), NewFrame(g.name \o "-" \o tok, SubDecl(g.decl, tok)))
        ELSE ReplaceLast(@, g)]

RECURSIVE Fold(_, _)
Fold(st, argv) == IF argv = <<>> THEN st ELSE Fold(Consume(st, Head(argv)), Tail(argv))
Run(d, argv)   == Fold(Start(d), argv)

---------------------------------- (* results *) -----------------------------
Occ(f, o)     == SelectSeq(f.binds, LAMBDA b : b.opt = o)
GivenIds(f)   == {f.binds[i].via : i \in DOMAIN f.binds}
Tokens(f, drop) == IF drop THEN SelectSeq(f.posn, LAMBDA t : t /= "") ELSE f.posn

Convs(type, toks)  == [i \in DOMAIN toks |-> Conv(type, toks[i])]
AllOk(cs)          == \A i \in DOMAIN cs : cs[i].ok
ValsOf(cs)         == [i \in DOMAIN cs |-> cs[i].val]

OptConvs(f, o)     == LET oc == Occ(f, o) IN Convs(f.decl.opts[o].type, [i \in DOMAIN oc |-> oc[i].val])
OptSound(f, o)     == (\A i \in DOMAIN Occ(f, o) : Occ(f, o)[i].has) /\ AllOk(OptConvs(f, o))
OptValue(f, o)     == IF Occ(f, o) = <<>> THEN f.decl.opts[o].def ELSE ValsOf(OptConvs(f, o))
OptRepeated(f, o)  == ~f.decl.opts[o].list
                      /\ Len(Occ(f, o)) + (IF f.mode = "value" /\ f.pend = o THEN 1 ELSE 0) > 1

(* the tokens of positional option p *)
PosTokens(f, drop, p) ==
    LET t == Tokens(f, drop) IN
    IF p > Len(t) THEN <<>> ELSE IF f.decl.pos[p].list THEN SubSeq(t, p, Len(t)) ELSE <<t[p]>>
PosConvs(f, drop, p)  == Convs(f.decl.pos[p].type, PosTokens(f, drop, p))
PosHasList(f)         == f.decl.pos /= <<>> /\ LastOf(f.decl.pos).list

FlagTimes(f, g)       == Cardinality({i \in DOMAIN f.flagged : f.flagged[i] = g})

(* The exception classes that a mistake in this frame justifies. *)
Faults(f, drop) ==
    LET d == f.decl OI == DOMAIN d.opts PI == DOMAIN d.pos IN
       (IF f.mode = "value" \/ \E i \in DOMAIN f.binds : ~f.binds[i].has
        THEN {"too_few_arguments"} ELSE {})
    \cup (IF \E o \in OI : OptRepeated(f, o) THEN {"option_declared_multiple_times"} ELSE {})
    \cup (IF \E o \in OI : d.opts[o].req /\ Occ(f, o) = <<>> /\ ~(f.mode = "value" /\ f.pend = o)
          THEN {"required_option_missing"} ELSE {})
    \cup (IF \/ \E o \in OI : \E i \in DOMAIN OptConvs(f, o) : Occ(f, o)[i].has /\ ~OptConvs(f, o)[i].ok
             \/ \E p \in PI : ~AllOk(PosConvs(f, drop, p))
          THEN {"user_input_error"} ELSE {})
    \cup (IF \/ \E o \in OI : Occ(f, o) /= <<>> /\ OptSound(f, o) /\ ~ChainAccepts(d.opts[o].chain, d.opts[o].type, OptValue(f, o))
             \/ \E p \in PI : /\ PosTokens(f, drop, p) /= <<>> /\ AllOk(PosConvs(f, drop, p))
                              /\ ~ChainAccepts(d.pos[p].chain, d.pos[p].type, ValsOf(PosConvs(f, drop, p)))
          THEN {"validation_error"} ELSE {})
    \cup (IF f.bad /= <<>> \/ \E g \in DOMAIN d.flags : FlagTimes(f, g) > 1 THEN {"unknown_option"} ELSE {})
    \cup (IF ~PosHasList(f) /\ Len(Tokens(f, drop)) > Len(d.pos) THEN {"too_many_arguments"} ELSE {})
    \cup (IF Len(Tokens(f, drop)) < Len(d.pos) THEN {"too_few_arguments"} ELSE {})

SpecialKinds == {"special", "specialvalue"}
NothingGiven(f) == \A i \in DOMAIN f.attr : f.attr[i] \in SpecialKinds

(* What happens in one frame: <<"err", classes>>, <<"page", name>> or <<"ok">> *)
FrameResult(f, drop) ==
    IF f.mode = "halt" THEN <<"err", {f.scan} \cup (IF f.page = "" THEN Faults(f, drop) \ {"required_option_missing", "too_few_arguments"} ELSE {})>>
    ELSE IF f.mode \in {"export", "vcheck"} THEN <<"err", {"too_few_arguments"}>>
    ELSE IF f.page = "tdl" THEN <<"err", {"validation_error"}>>
    ELSE IF f.page /= "" THEN <<"page", f.page>>
    ELSE IF NothingGiven(f) THEN <<"page", "shorthelp">>
    ELSE IF Faults(f, drop) /= {} THEN <<"err", Faults(f, drop)>>
    ELSE <<"ok">>

FrameValues(f, drop) ==
    [name  |-> f.name,
     opts  |-> [o \in DOMAIN f.decl.opts |-> OptValue(f, o)],
     flags |-> [g \in DOMAIN f.decl.flags |-> FlagTimes(f, g) = 1],
     pos   |-> [p \in DOMAIN f.decl.pos |-> ValsOf(PosConvs(f, drop, p))],
     set   |-> GivenIds(f),
     ocalls |-> [o \in DOMAIN f.decl.opts |->
                    IF Occ(f, o) = <<>> \/ ~OptSound(f, o) \/ OptRepeated(f, o) THEN <<>> ELSE
                    ChainCalls(f.decl.opts[o].chain, f.decl.opts[o].type, OptValue(f, o))],
     pcalls |-> [p \in DOMAIN f.decl.pos |->
                    IF PosTokens(f, drop, p) = <<>> \/ ~AllOk(PosConvs(f, drop, p)) THEN <<>> ELSE
                    ChainCalls(f.decl.pos[p].chain, f.decl.pos[p].type, ValsOf(PosConvs(f, drop, p)))]]

(* parse() is called on the top-level parser, then, if it returns, on its sub-parser, and so on.       *)
(* The outcome: kind = "ok" | "page" | "err"; at = index of the frame whose parse() ended it.          *)
RECURSIVE OutcomeFrom(_, _, _)
OutcomeFrom(st, i, drop) ==
    LET f == st.frames[i] r == FrameResult(f, drop) IN
    IF r[1] = "err" THEN [kind |-> "err", classes |-> r[2], page |-> "", at |-> i]
    ELSE IF r[1] = "page" THEN [kind |-> "page", classes |-> {}, page |-> r[2], at |-> i]
    ELSE IF i = Len(st.frames) THEN [kind |-> "ok", classes |-> {}, page |-> "", at |-> i]
    ELSE OutcomeFrom(st, i + 1, drop)

(* `drop`: empty positional arguments are ignored (a recorded deviation of the implementation). *)
Outcome(st, drop) == OutcomeFrom(st, 1, drop)
EmptyPos(st) == \E i \in DOMAIN st.frames : InSeq("", st.frames[i].posn)
Values_(st, drop) == [i \in DOMAIN st.frames |-> FrameValues(st.frames[i], drop)]
=============================================================================
