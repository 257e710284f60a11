----------------------------- MODULE Validators -----------------------------
(* Validators and chains of validators.  A validator is a record            *)
(*   [kind, args, log]; the value it judges is a sequence of canonical      *)
(*   values (one element for scalar options, all elements for lists).       *)
(* kinds: rec    - accepts everything                                       *)
(*        ne     - rejects iff an element equals args[1]                    *)
(*        maxlen - rejects iff there are more than args[1] elements         *)
(*        range  - sharg::arithmetic_range_validator{args[1], args[2]}      *)
(*        oneof  - sharg::value_list_validator{args...}                     *)
(*        regex  - sharg::regex_validator, see RegexMatches                 *)
(* Only validators with log = TRUE report their calls (the test program's   *)
(* own validators); the others are sharg's.                                 *)
EXTENDS Str, Values

(* comparison of canonical floats: scaled to a common exponent *)
FNeg(v)  == Head1(v) = "-"
FAbs(v)  == IF FNeg(v) THEN From(v, 2) ELSE v
FDig(v)  == LET e == FindFrom(v, "e", 1) IN IF e = 0 THEN v ELSE SubSeq(v, 1, e - 1)
FExp(v)  == LET e == FindFrom(v, "e", 1) s == From(v, e + 1) IN
            IF e = 0 THEN 0 ELSE IF Head1(s) = "-" THEN 0 - NatOf(From(s, 2)) ELSE NatOf(s)
FLead(v) == IF v = "0" THEN -100000 ELSE FExp(v) + Len(FDig(v))
AbsLeqF(a, b) == IF a = "inf" THEN b = "inf" ELSE IF b = "inf" THEN TRUE
                 ELSE IF FLead(a) /= FLead(b) THEN FLead(a) < FLead(b)
                 ELSE LET n == IF Len(FDig(a)) > Len(FDig(b)) THEN Len(FDig(a)) ELSE Len(FDig(b))
                      IN LeqSameLen(PadRight(FDig(a), n), PadRight(FDig(b), n))
FloatLeq(a, b) == IF a = "nan" \/ b = "nan" THEN FALSE
                  ELSE IF FAbs(a) = "0" /\ FAbs(b) = "0" THEN TRUE
                  ELSE IF FNeg(a) /\ FNeg(b) THEN AbsLeqF(FAbs(b), FAbs(a))
                  ELSE IF FNeg(a) THEN TRUE ELSE IF FNeg(b) THEN FALSE
                  ELSE AbsLeqF(a, b)

NumLeq(type, a, b) == IF type \in IntTypes THEN IntLeq(a, b) ELSE FloatLeq(a, b)

(* The patterns used by the test programs, as predicates. *)
RegexMatches(pat, s) ==
    CASE pat = "[a-c]+x?"      -> /\ s /= ""
                                 /\ LET b == IF Len(s) > 1 /\ Ch(s, Len(s)) = "x" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
                                    IN CharsIn(b, {"a", "b", "c"})
      [] pat = "ab|cd"         -> s \in {"ab", "cd"}
      [] pat = "[0-9]*"        -> CharsIn(s, Digits)
      [] pat = "a.c"           -> Len(s) = 3 /\ Ch(s, 1) = "a" /\ Ch(s, 3) = "c" /\ Ch(s, 2) \notin {"\n", "\r"}
      [] pat = ".*"            -> \A i \in 1..Len(s) : Ch(s, i) \notin {"\n", "\r"}

Accepts(v, type, vals) ==
    CASE v.kind = "rec"    -> TRUE
      [] v.kind = "ne"     -> \A i \in DOMAIN vals : vals[i] /= v.args[1]
      [] v.kind = "maxlen" -> Len(vals) <= NatOf(v.args[1])
      [] v.kind = "range"  -> \A i \in DOMAIN vals : NumLeq(type, v.args[1], vals[i]) /\ NumLeq(type, vals[i], v.args[2])
      [] v.kind = "oneof"  -> \A i \in DOMAIN vals : InSeq(vals[i], v.args)
      [] v.kind = "regex"  -> \A i \in DOMAIN vals : RegexMatches(v.args[1], vals[i])

ChainAccepts(chain, type, vals) == \A i \in DOMAIN chain : Accepts(chain[i], type, vals)

(* The calls that a chain makes: every validator up to and including the first one that rejects. *)
FirstReject(chain, type, vals) ==
    LET R == {i \in DOMAIN chain : ~Accepts(chain[i], type, vals)} IN
    IF R = {} THEN Len(chain) ELSE CHOOSE i \in R : \A j \in R : i <= j
RECURSIVE CallsTo(_, _, _, _)
CallsTo(chain, vals, i, n) ==
    IF i > n THEN <<>>
    ELSE (IF chain[i].log THEN <<[v |-> i, vals |-> vals]>> ELSE <<>>) \o CallsTo(chain, vals, i + 1, n)
ChainCalls(chain, type, vals) == CallsTo(chain, vals, 1, FirstReject(chain, type, vals))
=============================================================================
