----------------------------- MODULE VersionCheck ----------------------------
(* The update check of one user's applications: who decides whether the     *)
(* server is contacted, what is remembered, what is told, what is sent.     *)
(*                                                                          *)
(* A run (in):                                                              *)
(*   build   "dbg" | "rel"          app, version, url   texts               *)
(*   dev     developer allows checks    env   SHARG_NO_VERSION_CHECK is set *)
(*   home    "usable" | "dead" | "fallback" (then tmp: is it usable?)       *)
(*   place   where the files of this run live (if anywhere)                 *)
(*   user    "unset" | "true" | "false"   --version-check                   *)
(*   tin, terr   standard input / error are terminals; answer  what is typed*)
(*   tool    "wget" | "curl" | "none"                                       *)
(*   args    "ok" | "error" (a value that cannot be converted) | "page" |   *)
(*           "early" (an error before anything else happens) | "sub"        *)
(*   server  [ok, text]   what the server answers                           *)
(*   slow    the answer takes longer than parse()                           *)
(* Files: files[place][file name] = content.                                *)
EXTENDS Str

Day == 86400
Unregistered == "UNREGISTERED_APP"
LibVersion == <<1, 1, 2>>

------------------------------------ (* texts *) -----------------------------
At(s, i) == IF i \in 1..Len(s) THEN Ch(s, i) ELSE ""
RECURSIVE DigitRun(_, _)
DigitRun(s, i) == IF i > Len(s) \/ Ch(s, i) \notin Digits THEN i ELSE DigitRun(s, i + 1)   \* first position behind the digits at i
RECURSIVE Nat10(_)
Nat10(s) == IF s = "" THEN 0 ELSE Nat10(SubSeq(s, 1, Len(s) - 1)) * 10 + Digit(Ch(s, Len(s)))
LeadingNumber(s) == Nat10(SubSeq(s, 1, DigitRun(s, 1) - 1))

NL == "\n"
HasLine2(t)  == FindFrom(t, NL, 1) > 0 /\ FindFrom(t, NL, 1) < Len(t)
Line1(t)     == LET i == FindFrom(t, NL, 1) IN IF i = 0 THEN t ELSE SubSeq(t, 1, i - 1)
Line2(t)     == IF HasLine2(t) THEN Line1(From(t, FindFrom(t, NL, 1) + 1)) ELSE ""

(* The leading digits.digits.digits of a text: the position behind it, 0 if there is none. *)
VersionEnd(s) ==
    LET a == DigitRun(s, 1)
        b == DigitRun(s, a + 1)
        d == DigitRun(s, b + 1) IN
    IF a > 1 /\ At(s, a) = "." /\ b > a + 1 /\ At(s, b) = "." /\ d > b + 1 THEN d ELSE 0
Sanitised(v) == IF VersionEnd(v) = 0 THEN "0.0.0" ELSE SubSeq(v, 1, VersionEnd(v) - 1)
None3 == <<0, 0, 0>>
(* Numbers(s) is 0.0.0 unless the whole text is a version. *)
Numbers(s) ==
    IF s = "" \/ VersionEnd(s) /= Len(s) + 1 THEN None3
    ELSE LET a == DigitRun(s, 1) b == DigitRun(s, a + 1) IN
         <<Nat10(SubSeq(s, 1, a - 1)), Nat10(SubSeq(s, a + 1, b - 1)), Nat10(From(s, b + 1))>>
Less(v, w) == \/ v[1] < w[1]
              \/ v[1] = w[1] /\ v[2] < w[2]
              \/ v[1] = w[1] /\ v[2] = w[2] /\ v[3] < w[3]

NameOk(n) == n /= "" /\ CharsIn(n, Alnum \cup {"_", "-"})

---------------------------------- (* decision *) ----------------------------
CookieName(in)  == in.app \o (IF in.build = "rel" THEN "_usr" ELSE "_dev") \o ".timestamp"
VersionName(in) == in.app \o ".version"
Place(in)       == IF in.home = "usable" THEN in.place ELSE IF in.home = "fallback" /\ in.tmp THEN in.place ELSE ""
Content(files, place, name) ==
    IF place \in DOMAIN files /\ name \in DOMAIN files[place] THEN files[place][name] ELSE "(none)"
Missing(t) == t = "(none)"

(* by: who decided; yes: check; asked: the user; cookie: what is remembered ("(same)": untouched, else the new second line) *)
D(by, yes, asked, cookie) == [by |-> by, yes |-> yes, asked |-> asked, cookie |-> cookie]
Answer(a) == CASE Head1(a) = "y" -> D("answer", TRUE, TRUE, "ASK")
               [] Head1(a) = "a" -> D("answer", TRUE, TRUE, "ALWAYS")
               [] Head1(a) = "n" -> D("answer", FALSE, TRUE, "NEVER")
               [] OTHER          -> D("answer", FALSE, TRUE, "ASK")
Decide(files, now, in) ==
    IF ~in.dev THEN D("developer", FALSE, FALSE, "(same)")
    ELSE IF in.env THEN D("environment", FALSE, FALSE, "(same)")
    ELSE IF Place(in) = "" THEN D("directory", FALSE, FALSE, "(same)")
    ELSE IF in.user /= "unset" THEN D("option", in.user = "true", FALSE, "(same)")
    ELSE LET c == Content(files, Place(in), CookieName(in))
             last == IF HasLine2(c) THEN Line2(c) ELSE IF FindFrom(c, NL, 1) = 0 THEN c ELSE "" IN
         IF ~Missing(c) /\ now - LeadingNumber(Line1(c)) < Day THEN D("cookie", FALSE, FALSE, "(same)")
         ELSE IF ~Missing(c) /\ last = "NEVER" THEN D("cookie", FALSE, FALSE, "(same)")
         ELSE IF ~Missing(c) /\ last = "ALWAYS" THEN D("cookie", TRUE, FALSE, IF HasLine2(c) THEN "ALWAYS" ELSE "(same)")
         ELSE IF in.tin /\ in.terr THEN Answer(in.answer)
         ELSE D("terminal", FALSE, FALSE, "ASK")

(* What is told to the user, given the stored answer of the server. *)
Messages(in, stored) ==
    IF Missing(stored) THEN {}
    ELSE LET app == IF Line1(stored) = Unregistered THEN None3 ELSE Numbers(Line1(stored))
             lib == IF HasLine2(stored) THEN Numbers(Line2(stored)) ELSE None3
             own == Numbers(Sanitised(in.version)) IN
         IF in.build = "rel"
         THEN (IF app /= None3 /\ Less(own, app) THEN {"update"} ELSE {})
         ELSE (IF Line1(stored) = Unregistered THEN {"register"} ELSE {})
              \cup (IF lib /= None3 /\ Less(LibVersion, lib) THEN {"library"} ELSE {})
              \cup (IF app /= None3 /\ Less(app, own) THEN {"newer"} ELSE {})

(* One run.  out: [valid, by, yes, asked, told, sent, result] *)
Silent(result) == [by |-> "nobody", yes |-> FALSE, asked |-> FALSE, told |-> {}, sent |-> FALSE, result |-> result]
Run(files, now, in) ==
    IF ~NameOk(in.app) THEN [out |-> Silent("design_error"), files |-> files]
    ELSE IF in.args = "early" THEN [out |-> Silent("too_few_arguments"), files |-> files]
    ELSE LET d      == Decide(files, now, in)
             p      == Place(in)
             stored == Content(files, p, VersionName(in))
             sent   == d.yes /\ in.tool /= "none"
             (* a page ends the program, and an answer that is not there by then is lost *)
             got    == sent /\ in.server.ok /\ ~(in.slow /\ in.args = "page")
             keep   == IF d.cookie = "(same)" THEN files
                       ELSE [files EXCEPT ![p] = (CookieName(in) :> (ToString(now) \o NL \o d.cookie)) @@ @]
             after  == IF got THEN [keep EXCEPT ![p] = (VersionName(in) :> in.server.text) @@ @] ELSE keep
         IN [out |-> [by |-> d.by, yes |-> d.yes, asked |-> d.asked, told |-> IF d.yes THEN Messages(in, stored) ELSE {},
                      sent |-> sent,
                      result |-> CASE in.args = "page" -> "exit" [] in.args = "error" -> "user_input_error" [] OTHER -> "ok"],
             files |-> after]
=============================================================================
