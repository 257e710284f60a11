------------------------------- MODULE MCText --------------------------------
(* Design properties of the treatment of texts, for all texts over an       *)
(* alphabet.  SHARG_CONFIGS: << [chars, len, widths] >>                     *)
EXTENDS HelpPages, Json, IOUtils

Configs == JsonDeserialize(IOEnv.SHARG_CONFIGS)
VARIABLES c, t
Init == c \in DOMAIN Configs /\ t = ""
Next == Len(t) < Configs[c].len /\ c' = c /\ \E x \in SetOf(Configs[c].chars) : t' = t \o x
Spec == Init /\ [][Next]_<<c, t>>

Widths == SetOf(Configs[c].widths)
Printed(s) == [i \in DOMAIN Words(s) |-> Text(Words(s)[i], FALSE)]
NonEmpty(seq) == SelectSeq(seq, LAMBDA s : s /= "")
(* No word is lost, added or moved (words that consist of markup only print nothing). *)
Unlost == \A w \in Widths : NonEmpty(FlattenS([i \in DOMAIN Paragraph(t, "  ", 2, w, FALSE) |-> Words(Paragraph(t, "  ", 2, w, FALSE)[i])]))
                            = NonEmpty(Printed(t))
(* All lines are indented, only single words exceed the width, and a line is *)
(* ended only if the next word does not fit.  The first line may start with  *)
(* a word that does not fit.                                                 *)
RECURSIVE Taken(_, _, _)      \* the words ws[k..] distributed to lines as required
Taken(ws, k, w) ==
    IF k > Len(ws) THEN <<>>
    ELSE LET sum(n) == Width(ws[k]) + (LET RECURSIVE S(_) S(j) == IF j > n THEN 0 ELSE 1 + Width(ws[j]) + S(j + 1) IN S(k + 1))
             fit == {n \in k..Len(ws) : n = k \/ 2 + sum(n) <= w}
             last == CHOOSE n \in fit : (n + 1) \notin fit /\ \A m \in k..n : m \in fit IN
         <<[i \in 1..(last - k + 1) |-> ws[k + i - 1]]>> \o Taken(ws, last + 1, w)
Fits == \A w \in Widths : Words(t) /= <<>> =>
            Paragraph(t, "  ", 2, w, FALSE) = LET g == Taken(Words(t), 1, w) IN
                [i \in DOMAIN g |-> "  " \o JoinStr([j \in DOMAIN g[i] |-> Text(g[i][j], FALSE)], " ")]
(* HTML: tags are balanced and what is between them is the escaped text. *)
RECURSIVE Parse(_, _, _)    \* <<TRUE, text>> iff s is balanced
Parse(s, open, text) ==
    IF s = "" THEN <<open = <<>>, text>>
    ELSE IF Head1(s) /= "<" THEN Parse(From(s, 2), open, text \o Head1(s))
    ELSE LET e == FindFrom(s, ">", 1) tag == IF e = 0 THEN "" ELSE SubSeq(s, 2, e - 1) IN
         CASE tag \in {"em", "strong"} -> Parse(From(s, e + 1), <<tag>> \o open, text)
           [] open /= <<>> /\ tag = "/" \o (IF open = <<>> THEN "" ELSE open[1]) -> Parse(From(s, e + 1), Tail(open), text)
           [] OTHER -> <<FALSE, text>>
Balanced == Parse(Html(t), <<>>, "") = <<TRUE, Xml(Text(t, FALSE))>>
(* Man pages: the text is neither a request nor contains a comment, and nothing but protection was added. *)
RECURSIVE NoComment(_, _)
NoComment(s, i) == i >= Len(s) \/ (IF Ch(s, i) = "\\" THEN Ch(s, i + 1) /= "\"" /\ NoComment(s, i + 2) ELSE NoComment(s, i + 1))
NoRequest == t /= "" => Head1(Man(t)) \notin {".", "'"} /\ NoComment(Man(t), 1)
WidthIsLength == Width(t) = Len(Text(t, FALSE))
=============================================================================
