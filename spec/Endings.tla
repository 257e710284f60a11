------------------------------- MODULE Endings -------------------------------
(* How a program that calls parse() may go on, whatever its arguments and   *)
(* its environment are.  This is the weakest specification of the parser:   *)
(* MCParser checks that every run of the precise one (Parser.tla) is a run  *)
(* of this one (invariant Ends).                                            *)
EXTENDS Naturals, Sequences

ParserErrors == {"unknown_option", "too_many_arguments", "too_few_arguments", "required_option_missing",
                 "option_declared_multiple_times", "user_input_error", "validation_error"}
Pages == {"help", "advhelp", "shorthelp", "version", "copyright", "html", "man"}

VARIABLES run       \* "idle" | "parsing" | "over": a page was printed and the process is gone
EndInit == run = "idle"
Parse   == run = "idle" /\ run' = "parsing"
(* parse() returns and nothing was printed *)
Returns(r) == run = "parsing" /\ r.kind = "ok" /\ r.out = "" /\ run' = "idle"
(* an exception that says what is wrong *)
Throws(r)  == run = "parsing" /\ r.kind = "err" /\ r.class \in ParserErrors /\ ~r.emptymsg /\ r.out = "" /\ run' = "idle"
(* the process ends with code 0 after a page was printed (unless nothing can be printed) *)
Exits(r)   == run = "parsing" /\ r.kind = "exit" /\ r.code = 0 /\ (r.out \in Pages \/ r.closed) /\ run' = "over"
Restart == run = "over" /\ run' = "idle"
=============================================================================
