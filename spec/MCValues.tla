------------------------------ MODULE MCValues ------------------------------
(* Enumerates tokens for every option value type; checks the design of the  *)
(* conversion (Values.tla) on them and prints, per token, command lines     *)
(* with their outcomes for the real parser.                                 *)
(* SHARG_CONFIGS: << [id, decl, type, seeds, alphabet, depth, good, forms] >>*)
EXTENDS Parser, Json, IOUtils

Configs == JsonDeserialize(IOEnv.SHARG_CONFIGS)

(* decimal successor and predecessor of canonical integers of any size *)
RECURSIVE SuccNat(_)
SuccNat(s) == IF s = "" THEN "1"
              ELSE LET d == Digit(Ch(s, Len(s))) r == SubSeq(s, 1, Len(s) - 1)
                   IN IF d = 9 THEN SuccNat(r) \o "0" ELSE r \o ToString(d + 1)
RECURSIVE PredNat(_)
PredNat(s) == LET d == Digit(Ch(s, Len(s))) r == SubSeq(s, 1, Len(s) - 1)
              IN IF d = 0 THEN PredNat(r) \o "9" ELSE r \o ToString(d - 1)
Succ(s) == IF s = "-1" THEN "0" ELSE IF IsNeg(s) THEN "-" \o StripZeros(PredNat(From(s, 2))) ELSE SuccNat(s)
Pred(s) == IF s = "0" THEN "-1" ELSE IF IsNeg(s) THEN "-" \o SuccNat(From(s, 2)) ELSE StripZeros(PredNat(s))

Bounds == UNION {{IntBounds(t)[1], IntBounds(t)[2]} : t \in IntTypes}
Borders == Bounds \cup {Succ(b) : b \in Bounds} \cup {Pred(b) : b \in Bounds} \cup {Succ(Succ(b)) : b \in Bounds}
Padded(s) == IF IsNeg(s) THEN "-00" \o From(s, 2) ELSE "00" \o s
BorderTokens == Borders \cup {Padded(s) : s \in Borders} \cup {s \o "0" : s \in Borders}
                \cup {s \o " " : s \in Bounds} \cup {"+" \o s : s \in Bounds} \cup {s \o ".0" : s \in Bounds}

VARIABLES k, tok
vars == <<k, tok>>
T == Configs[k].type
Init == /\ k \in DOMAIN Configs
        /\ tok \in {""} \cup SetOf(Configs[k].seeds) \cup (IF T \in IntTypes THEN BorderTokens ELSE {})
(* Only tokens over the alphabet grow. *)
Grows == Len(tok) < Configs[k].depth
         /\ (tok = "" \/ \E i \in DOMAIN Configs[k].alphabet : EndsWith(tok, Configs[k].alphabet[i]))
Next == \E i \in DOMAIN Configs[k].alphabet :
          /\ Grows
          /\ tok' = tok \o Configs[k].alphabet[i]
          /\ k' = k
Spec == Init /\ [][Next]_vars

-------------------------------- (* the design *) -----------------------------
R == Conv(T, tok)
InRange    == (T \in IntTypes /\ R.ok) => IntLeq(IntBounds(T)[1], R.val) /\ IntLeq(R.val, IntBounds(T)[2])
Idempotent == R.ok => Conv(T, R.val) = R
(* An integer type accepts exactly the tokens of the wider type that are in its range. *)
Wider == [i8 |-> "i16", i16 |-> "i32", i32 |-> "i64", u8 |-> "u16", u16 |-> "u32", u32 |-> "u64"]
Narrowing  == (T \in DOMAIN Wider) =>
                LET w == Conv(Wider[T], tok) IN
                R = (IF w.ok /\ IntLeq(IntBounds(T)[1], w.val) /\ IntLeq(w.val, IntBounds(T)[2]) THEN w ELSE No)
(* The value of a number is the number: no digit is lost. *)
Lossless   == (T \in IntTypes /\ R.ok) => StripZeros(IF IsNeg(tok) THEN From(tok, 2) ELSE tok) = (IF IsNeg(R.val) THEN From(R.val, 2) ELSE R.val)
Verbatim   == T \in {"str", "path"} => R = Yes(tok)

Argv(form) ==
    CASE form = "sep"   -> <<"-x", tok>>
      [] form = "att"   -> <<"-x" \o tok>>
      [] form = "eq"    -> <<"--xx=" \o tok>>
      [] form = "list"  -> <<"-l", Configs[k].good, "--ll=" \o tok, "-l", Configs[k].good>>
      [] form = "lsep"  -> <<"-f", "--ll", tok>>
      [] form = "pos"   -> <<"--", tok, Configs[k].good>>
Vector(st) == LET o == Outcome(st, FALSE) IN
    [kind |-> o.kind, classes |-> o.classes, page |-> o.page, at |-> o.at, frames |-> Values_(st, FALSE)]
Alt(st)    == LET o == Outcome(st, TRUE) IN
    [kind |-> o.kind, classes |-> o.classes, page |-> o.page, at |-> o.at, frames |-> Values_(st, TRUE)]
Specified == ~R.ok => R.val /= "subnormal"
Emit == Specified =>
    \A i \in DOMAIN Configs[k].forms :
        LET a == Argv(Configs[k].forms[i])
            p == Configs[k].forms[i] = "pos"
            st == Run(IF p THEN Configs[k].pdecl ELSE Configs[k].decl, a) IN
        PrintT(ToJson([c |-> Configs[k].id \o (IF p THEN "-pos" ELSE ""), argv |-> a, out |-> Vector(st), alt |-> IF EmptyPos(st) THEN <<Alt(st)>> ELSE <<>>,
                       exact |-> T \notin {"f32", "f64"} \/ ~R.ok \/ FloatExact(T, R.val) \/ InSeq(tok, Configs[k].seeds)]))
=============================================================================
