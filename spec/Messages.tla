------------------------------- MODULE Messages ------------------------------
(* Whom an error message blames.  If parse() throws class c in frame f, the *)
(* message must name one culprit: Culprits(f, c, drop) is the set of all    *)
(* mistakes of that class that are really present, each as the sequence of  *)
(* needles that its message has to mention.  A needle is a word (delimited  *)
(* by characters that cannot be part of an identifier) or a number.         *)
EXTENDS Parser

W(s) == [k |-> "word", s |-> s]
N(n) == [k |-> "num", s |-> ToString(n)]
Words_(seq) == [i \in DOMAIN seq |-> W(seq[i])]

WordChar == Alnum \cup {"_", "@", "-"}
Mentions(msg, n) ==
    \/ n.s = ""
    \/ LET glue == IF n.k = "num" THEN Digits ELSE WordChar len == Len(n.s) IN
       \E i \in 1..(Len(msg) - len + 1) :
          /\ SubSeq(msg, i, i + len - 1) = n.s
          /\ i = 1 \/ Ch(msg, i - 1) \notin glue
          /\ i + len > Len(msg) \/ Ch(msg, i + len) \notin glue
Blames(msg, culprit) == \A i \in DOMAIN culprit : Mentions(msg, culprit[i])

AllIds(o) == (IF o.short = "" THEN <<>> ELSE <<W("-" \o o.short)>>) \o (IF o.long = "" THEN <<>> ELSE <<W("--" \o o.long)>>)
AnyId(o)  == {<<W(x)>> : x \in OptIds(o)}
Images(S, Op(_)) == {Op(x) : x \in S}

---------------------------- (* values that are none *) ----------------------
TypeText(t) == CASE t = "i8" -> "signed 8 bit integer" [] t = "u8" -> "unsigned 8 bit integer"
                 [] t = "i16" -> "signed 16 bit integer" [] t = "u16" -> "unsigned 16 bit integer"
                 [] t = "i32" -> "signed 32 bit integer" [] t = "u32" -> "unsigned 32 bit integer"
                 [] t = "i64" -> "signed 64 bit integer" [] t = "u64" -> "unsigned 64 bit integer"
                 [] t = "f64" -> "double" [] t = "f32" -> "float" [] t = "bool" -> "bool" [] t = "user" -> "word"
FloatMax(t) == IF t = "f32" THEN "340282346638528859811704183484516925440"
               ELSE "179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123348274797826204144723168738177180919299881250404026184124858368"
(* the number in front of a token, "" if there is none *)
NumPrefix(s) == LET b == IF Head1(s) = "-" THEN From(s, 2) ELSE s
                    n == CHOOSE k \in 0..Len(b) : /\ CharsIn(SubSeq(b, 1, k), Digits)
                                                  /\ k = Len(b) \/ Ch(b, k + 1) \notin Digits
                IN IF n = 0 THEN "" ELSE (IF Head1(s) = "-" THEN "-" ELSE "") \o SubSeq(b, 1, n)
TooBig(type, s) == NumPrefix(s) /= "" /\ (Head1(s) = "-" => type \in SignedTypes) /\ ~ConvInt(type, NumPrefix(s)).ok
(* What has to be said about a token that is no value of the type: the alternatives. *)
ConvReasons(type, s) ==
    LET asType == <<W(s), W(TypeText(type))>> IN
    CASE type \in IntTypes ->
           LET asRange == <<W(s), W(IntBounds(type)[1]), W(IntBounds(type)[2])>> IN
           IF TooBig(type, s) THEN (IF NumPrefix(s) = s THEN {asRange} ELSE {asRange, asType}) ELSE {asType}
      [] type \in {"f32", "f64"} ->
           LET asRange == <<W(s), W("-" \o FloatMax(type)), W(FloatMax(type))>> IN
           IF SplitFloat(s)[1] THEN {asRange} ELSE {asRange, asType}
      [] type = "enum" -> {<<W(s), W("red"), W("green"), W("blue"), W("azure")>>}
      [] OTHER -> {asType}

--------------------------- (* values that are refused *) --------------------
Refused(v, type, vals) == {x \in SetOf(vals) : ~Accepts(v, type, <<x>>)}
ChainReasons(chain, type, vals) ==
    LET v == chain[FirstReject(chain, type, vals)] IN
    CASE v.kind \in {"ne", "maxlen"} -> {<<W(IF v.exc = "odd" THEN "odd" ELSE "rejected")>>}
      [] v.kind = "range" -> IF type \in IntTypes THEN {<<W(x), W(v.args[1]), W(v.args[2])>> : x \in Refused(v, type, vals)} ELSE {<<>>}
      [] v.kind = "oneof" -> IF type \in IntTypes \cup {"str"} THEN {<<W(x)>> \o Words_(v.args) : x \in Refused(v, type, vals)} ELSE {<<>>}
      [] v.kind = "regex" -> {<<W(x), W(v.args[1])>> : x \in Refused(v, type, vals)}

------------------------------ (* who is to blame *) -------------------------
(* An unknown token is named as it was written; of a cluster, one of its unknown members is named. *)
UnknownIn(d, tok) == {<<W(tok)>>} \cup
    (IF StartsWith(tok, "--") THEN {} ELSE {<<W("-" \o Ch(tok, i))>> : i \in {j \in 2..Len(tok) : FlagOf(d, Ch(tok, j)) = {}}})

Culprits(f, class, drop) ==
    LET d == f.decl OI == DOMAIN d.opts PI == DOMAIN d.pos T == Tokens(f, drop) IN
    CASE f.mode = "halt" /\ f.scan = "user_input_error" /\ class = "user_input_error" ->
           {[i \in DOMAIN d.subs |-> W(d.subs[i].name)]}
      [] f.mode = "export" \/ (f.page = "tdl" /\ f.mode /= "halt") -> {<<W("--export-help")>>}
      [] f.mode = "vcheck" -> {<<W("--version-check")>>}
      [] class = "unknown_option" ->
           UNION {UnknownIn(d, f.bad[i]) : i \in DOMAIN f.bad} \cup
           UNION {AnyId(d.flags[g]) : g \in {x \in DOMAIN d.flags : FlagTimes(f, x) > 1}}
      [] class = "too_few_arguments" ->
           (IF f.mode = "value" THEN {<<W(f.via)>>} ELSE {}) \cup
           {<<W(f.binds[i].via)>> : i \in {j \in DOMAIN f.binds : ~f.binds[j].has}} \cup
           (IF Len(T) < Len(d.pos) THEN {<<N(Len(d.pos))>>} ELSE {})
      [] class = "too_many_arguments" -> IF ~PosHasList(f) /\ Len(T) > Len(d.pos) THEN {<<>>} ELSE {}
      [] class = "option_declared_multiple_times" -> UNION {AnyId(d.opts[o]) : o \in {x \in OI : OptRepeated(f, x)}}
      [] class = "required_option_missing" ->
           {AllIds(d.opts[o]) : o \in {x \in OI : d.opts[x].req /\ Occ(f, x) = <<>> /\ ~(f.mode = "value" /\ f.pend = x)}}
      [] class = "user_input_error" ->
           UNION {LET b == f.binds[i] t == d.opts[b.opt].type IN
                  IF b.has /\ ~Conv(t, b.val).ok
                  THEN {(IF t = "enum" THEN <<>> ELSE <<W(b.via)>>) \o r : r \in ConvReasons(t, b.val)} ELSE {} : i \in DOMAIN f.binds} \cup
           UNION {UNION {LET tok == PosTokens(f, drop, p)[k] t == d.pos[p].type IN
                         IF Conv(t, tok).ok THEN {}
                         ELSE {(IF t = "enum" THEN <<>> ELSE <<N(q)>>) \o r : r \in ConvReasons(t, tok), q \in {p, p + k - 1}}
                         : k \in DOMAIN PosTokens(f, drop, p)} : p \in PI}
      [] class = "validation_error" ->
           (IF f.mode = "halt" /\ f.scan = "validation_error" THEN {<<W("--export-help"), W("html"), W("man")>>, <<W("--version-check")>>} ELSE {}) \cup
           UNION {LET o == d.opts[x] IN
                  IF Occ(f, x) /= <<>> /\ OptSound(f, x) /\ ~ChainAccepts(o.chain, o.type, OptValue(f, x))
                  THEN {AllIds(o) \o r : r \in ChainReasons(o.chain, o.type, OptValue(f, x))} ELSE {} : x \in OI} \cup
           UNION {LET o == d.pos[p] c == PosConvs(f, drop, p) IN
                  IF PosTokens(f, drop, p) /= <<>> /\ AllOk(c) /\ ~ChainAccepts(o.chain, o.type, ValsOf(c))
                  THEN {<<N(p)>> \o r : r \in ChainReasons(o.chain, o.type, ValsOf(c))} ELSE {} : p \in PI}
      [] OTHER -> {}

Justified(f, class, drop, msg) == \E c \in Culprits(f, class, drop) : Blames(msg, c)
=============================================================================
