-------------------------------- MODULE Str --------------------------------
(* Operators on strings.  TLC treats strings as sequences of characters for *)
(* Len, \o and SubSeq; a character is a string of length one.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Ch(s, i)          == SubSeq(s, i, i)
Head1(s)          == IF s = "" THEN "" ELSE SubSeq(s, 1, 1)
From(s, i)        == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
StartsWith(s, p)  == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)    == Len(s) >= Len(p) /\ (p = "" \/ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p)
HasChar(s, c)     == \E i \in 1..Len(s) : Ch(s, i) = c
CharsIn(s, set)   == \A i \in 1..Len(s) : Ch(s, i) \in set
CharCount(s, c)   == Cardinality({i \in 1..Len(s) : Ch(s, i) = c})
Contains(s, p)    == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

SetOf(seq)        == {seq[i] : i \in DOMAIN seq}
InSeq(x, seq)     == \E i \in DOMAIN seq : seq[i] = x
LastOf(seq)       == seq[Len(seq)]
ReplaceLast(seq, x) == [seq EXCEPT ![Len(seq)] = x]

Digits   == {"0","1","2","3","4","5","6","7","8","9"}
LowerStr == "abcdefghijklmnopqrstuvwxyz"
UpperStr == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DigitStr == "0123456789"
LowerSet == {Ch(LowerStr, i) : i \in 1..26}
UpperSet == {Ch(UpperStr, i) : i \in 1..26}
Alnum    == LowerSet \cup UpperSet \cup Digits

IdxIn(s, c)  == CHOOSE i \in 1..Len(s) : Ch(s, i) = c
Digit(c)     == IdxIn(DigitStr, c) - 1
ToLowerC(c)  == IF c \in UpperSet THEN Ch(LowerStr, IdxIn(UpperStr, c)) ELSE c
RECURSIVE ToLower(_)
ToLower(s)   == IF s = "" THEN "" ELSE ToLowerC(Head1(s)) \o ToLower(From(s, 2))

(* first position of character c in s at or after i, 0 if there is none *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindFrom(s, c, i + 1)

RECURSIVE SeqFilter(_, _)
SeqFilter(seq, set) ==   \* the subsequence of the elements that are in `set`
    IF seq = <<>> THEN <<>>
    ELSE IF Head(seq) \in set THEN <<Head(seq)>> \o SeqFilter(Tail(seq), set) ELSE SeqFilter(Tail(seq), set)

RECURSIVE FlattenS(_)
FlattenS(seqs) == IF seqs = <<>> THEN <<>> ELSE Head(seqs) \o FlattenS(Tail(seqs))

RECURSIVE JoinStr(_, _)
JoinStr(seq, sep) == IF seq = <<>> THEN "" ELSE IF Len(seq) = 1 THEN seq[1]
                     ELSE seq[1] \o sep \o JoinStr(Tail(seq), sep)
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n <= 0 THEN "" ELSE s \o Repeat(s, n - 1)
=============================================================================
