------------------------------- MODULE Values -------------------------------
(* What a command line token denotes for each option value type.            *)
(*                                                                          *)
(* Conv(type, s) = [ok |-> BOOLEAN, val |-> STRING]; `val` is the canonical *)
(* form of the value (TLC's integers have 32 bits, so numbers of any size   *)
(* are represented by their canonical decimal digit strings).               *)
EXTENDS Str

Yes(v) == [ok |-> TRUE, val |-> v]
No     == [ok |-> FALSE, val |-> ""]

--------------------------------- (* integers *) -----------------------------
AllDigits(s) == s /= "" /\ CharsIn(s, Digits)

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Head1(s) = "0" THEN StripZeros(From(s, 2)) ELSE s

RECURSIVE LeqSameLen(_, _)
LeqSameLen(a, b) == IF a = "" THEN TRUE
                    ELSE IF Head1(a) = Head1(b) THEN LeqSameLen(From(a, 2), From(b, 2))
                    ELSE Digit(Head1(a)) < Digit(Head1(b))
(* a <= b for canonical decimal naturals *)
NatLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LeqSameLen(a, b))
(* a <= b for canonical decimal integers *)
IsNeg(a)     == Head1(a) = "-"
IntLeq(a, b) == IF IsNeg(a) /\ IsNeg(b) THEN NatLeq(From(b, 2), From(a, 2))
                ELSE IF IsNeg(a) THEN TRUE
                ELSE IF IsNeg(b) THEN FALSE
                ELSE NatLeq(a, b)

IntBounds(type) ==
    CASE type = "i8"  -> <<"-128", "127">>
      [] type = "u8"  -> <<"0", "255">>
      [] type = "i16" -> <<"-32768", "32767">>
      [] type = "u16" -> <<"0", "65535">>
      [] type = "i32" -> <<"-2147483648", "2147483647">>
      [] type = "u32" -> <<"0", "4294967295">>
      [] type = "i64" -> <<"-9223372036854775808", "9223372036854775807">>
      [] type = "u64" -> <<"0", "18446744073709551615">>
IntTypes    == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}
SignedTypes == {"i8", "i16", "i32", "i64"}

CanonInt(s) == LET neg == Head1(s) = "-"
                   m   == StripZeros(IF neg THEN From(s, 2) ELSE s)
               IN IF neg /\ m /= "0" THEN "-" \o m ELSE m

ConvInt(type, s) ==
    LET neg == Head1(s) = "-"
        m   == IF neg THEN From(s, 2) ELSE s
    IN  IF ~AllDigits(m) \/ (neg /\ type \notin SignedTypes) THEN No
        ELSE LET c == CanonInt(s) b == IntBounds(type)
             IN IF IntLeq(b[1], c) /\ IntLeq(c, b[2]) THEN Yes(c) ELSE No

------------------------------ (* floating point *) --------------------------
(* [-] ( digits [. digits*] | . digits ) [ (e|E) [+|-] digits ]  |  [-] inf | infinity | nan  *)
(* Canonical value: "0", "-0", "inf", "-inf", "nan", "-nan" or              *)
(*   [-]D...DeX with D...D without leading and trailing zeros, denoting     *)
(*   D...D * 10^X.                                                          *)
IsE(c) == c = "e" \/ c = "E"

RECURSIVE StripTrail(_, _)
StripTrail(s, e) == IF Len(s) > 1 /\ Ch(s, Len(s)) = "0" THEN StripTrail(SubSeq(s, 1, Len(s) - 1), e + 1)
                    ELSE <<s, e>>
RECURSIVE NatOf(_)      \* small digit string -> number (exponents are clamped to 5 digits)
NatOf(s) == IF s = "" THEN 0 ELSE NatOf(SubSeq(s, 1, Len(s) - 1)) * 10 + Digit(Ch(s, Len(s)))
ClampNat(s) == LET t == StripZeros(s) IN IF Len(t) > 5 THEN 99999 ELSE NatOf(t)

(* Splits s into <<valid, negative, integer digits, fraction digits, exponent>> *)
SplitFloat(s) ==
    LET neg  == Head1(s) = "-"
        b    == IF neg THEN From(s, 2) ELSE s
        epos == {i \in 1..Len(b) : IsE(Ch(b, i))}
        e1   == IF epos = {} THEN Len(b) + 1 ELSE CHOOSE i \in epos : \A j \in epos : i <= j
        m    == SubSeq(b, 1, e1 - 1)
        ex   == From(b, e1 + 1)
        exs  == IF Head1(ex) \in {"+", "-"} THEN From(ex, 2) ELSE ex
        dot  == FindFrom(m, ".", 1)
        ip   == IF dot = 0 THEN m ELSE SubSeq(m, 1, dot - 1)
        fp   == IF dot = 0 THEN "" ELSE From(m, dot + 1)
        ok   == /\ CharsIn(ip, Digits) /\ CharsIn(fp, Digits) /\ Len(ip) + Len(fp) > 0
                /\ (epos = {} \/ AllDigits(exs))
        ev   == IF epos = {} \/ ~ok THEN 0 ELSE IF Head1(ex) = "-" THEN 0 - ClampNat(exs) ELSE ClampNat(exs)
    IN  <<ok, neg, ip, fp, ev>>

(* decimal exponent of the leading digit; largest/smallest decades that are certainly finite / not zero *)
FloatMaxExp(type) == IF type = "f32" THEN 38 ELSE 308
FloatMinExp(type) == IF type = "f32" THEN -37 ELSE -307      \* normal numbers
FloatMaxDig(type) ==    \* leading digits of the largest finite value (rounded down)
    IF type = "f32" THEN "3402823" ELSE "1797693134862315"

RECURSIVE PadRight(_, _)
PadRight(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE PadRight(s \o "0", n)

ConvFloat(type, s) ==
    LET neg == Head1(s) = "-"
        l   == ToLower(IF neg THEN From(s, 2) ELSE s)
        sg  == IF neg THEN "-" ELSE ""
    IN  IF l \in {"inf", "infinity"} THEN Yes(sg \o "inf")
        ELSE IF l = "nan" \/ (StartsWith(l, "nan(") /\ EndsWith(l, ")")
                              /\ CharsIn(SubSeq(l, 5, Len(l) - 1), Alnum \cup {"_"})) THEN Yes("nan")
        ELSE LET f == SplitFloat(s) IN
             IF ~f[1] THEN No
             ELSE LET d  == StripZeros(f[3] \o f[4])
                      x  == f[5] - Len(f[4])
                  IN IF d = "0" THEN Yes(sg \o "0")
                     ELSE LET lead == x + Len(d) - 1          \* value = d[1].d[2].. * 10^lead
                              n    == Len(FloatMaxDig(type))
                              big  == \/ lead > FloatMaxExp(type)
                                      \/ /\ lead = FloatMaxExp(type)
                                         /\ ~NatLeq(PadRight(d, n), FloatMaxDig(type))
                              small == lead < FloatMinExp(type)
                              tiny  == lead < FloatMinExp(type) - 20
                              t    == StripTrail(d, x)
                          IN IF big THEN No
                             ELSE IF tiny THEN No
                             ELSE IF small THEN [ok |-> FALSE, val |-> "subnormal"]   \* not specified
                             ELSE Yes(sg \o t[1] \o "e" \o ToString(t[2]))

(* Is the canonical value decided by the digits alone?  A decimal with at most 6 (float) or 15 (double) *)
(* significant digits survives the conversion to binary and the shortest conversion back unchanged.     *)
SigDigits(type) == IF type = "f32" THEN 6 ELSE 15
CoreDigits(v)   == LET b == IF Head1(v) = "-" THEN From(v, 2) ELSE v
                       e == FindFrom(b, "e", 1)
                   IN IF e = 0 THEN b ELSE SubSeq(b, 1, e - 1)
FloatExact(type, v) == Len(CoreDigits(v)) <= SigDigits(type)

--------------------------------- (* the rest *) -----------------------------
ConvBool(s) == IF s \in {"1", "true"} THEN Yes("true") ELSE IF s \in {"0", "false"} THEN Yes("false") ELSE No

EnumKeys == [red |-> "red", green |-> "green", blue |-> "blue", azure |-> "blue"]   \* two names for one value
ConvEnum(s) == IF s \in DOMAIN EnumKeys THEN Yes(EnumKeys[s]) ELSE No

(* A user-defined type, read with operator>>: word of lower case letters, followed by nothing. *)
ConvUser(s) == IF s /= "" /\ CharsIn(s, LowerSet) THEN Yes(s) ELSE No

Conv(type, s) ==
    CASE type \in IntTypes        -> ConvInt(type, s)
      [] type \in {"f32", "f64"}  -> ConvFloat(type, s)
      [] type = "bool"            -> ConvBool(s)
      [] type \in {"str", "path"} -> Yes(s)
      [] type = "enum"            -> ConvEnum(s)
      [] type = "user"            -> ConvUser(s)
=============================================================================
