------------------------------ MODULE MCVersion ------------------------------
(* Enumerates histories of runs.                                            *)
(* SHARG_CONFIGS: << [id, inputs, deltas, depth, start, files, places,      *)
(*                    emit] >>: files = <<[place, name, text]>>             *)
EXTENDS VersionCheck, Json, IOUtils

Configs == JsonDeserialize(IOEnv.SHARG_CONFIGS)
FilesOf(list, places) ==
    [p \in SetOf(places) |->
        LET own == {i \in DOMAIN list : list[i].place = p} IN
        [n \in {list[i].name : i \in own} |-> (list[CHOOSE i \in own : list[i].name = n]).text]]

VARIABLES c, hist, outs, now, files
vars == <<c, hist, outs, now, files>>

Init == /\ c \in DOMAIN Configs
        /\ hist = <<>> /\ outs = <<>>
        /\ now = Configs[c].start
        /\ files = FilesOf(Configs[c].files, Configs[c].places)
Input(k) == Configs[c].inputs[k]
Next == \E k \in DOMAIN Configs[c].inputs, d \in SetOf(Configs[c].deltas) :
          /\ Len(hist) < Configs[c].depth
          /\ (hist = <<>> => d = Configs[c].deltas[1])
          /\ now' = IF hist = <<>> THEN now ELSE now + d
          /\ LET r == Run(files, now', Input(k)) IN
               /\ outs' = Append(outs, r.out)
               /\ files' = r.files
          /\ hist' = Append(hist, [in |-> k, at |-> now'])
          /\ c' = c
Spec == Init /\ [][Next]_vars

---------------------------------- (* properties *) --------------------------
In(i) == Input(hist[i].in)
Auto(i) == outs[i].yes /\ outs[i].by \in {"cookie", "answer"}
SameCookie(i, j) == Place(In(i)) = Place(In(j)) /\ CookieName(In(i)) = CookieName(In(j))
OwnCookies == Configs[c].files = <<>>      \* nobody else wrote a cookie
(* C14: at most one automatic check per day. *)
Daily == OwnCookies => \A i, j \in DOMAIN hist :
    (i < j /\ SameCookie(i, j) /\ Auto(i) /\ Auto(j)) => hist[j].at - hist[i].at >= Day
(* C14: asked on a terminal only and at most once per day. *)
AskedDaily == \A i, j \in DOMAIN hist :
    /\ outs[i].asked => In(i).tin /\ In(i).terr
    /\ (i < j /\ SameCookie(i, j) /\ outs[i].asked /\ outs[j].asked) => hist[j].at - hist[i].at >= Day
(* C14: answers persist. *)
Persist == OwnCookies => \A i, j \in DOMAIN hist :
    (i < j /\ SameCookie(i, j) /\ outs[i].asked) =>
        /\ Head1(In(i).answer) = "n" => ~Auto(j) /\ ~outs[j].asked
        /\ Head1(In(i).answer) = "a" => ~outs[j].asked
(* C14: without a terminal only after an answer "always". *)
NoTerminal == OwnCookies => \A j \in DOMAIN hist : (Auto(j) /\ ~(In(j).tin /\ In(j).terr)) =>
    \E i \in 1..(j - 1) : SameCookie(i, j) /\ outs[i].asked /\ Head1(In(i).answer) = "a"
(* C13: vetoes. *)
Vetoes == \A i \in DOMAIN hist : (~In(i).dev \/ In(i).env \/ Place(In(i)) = "" \/ In(i).user = "false") => ~outs[i].yes
OptionYes == \A i \in DOMAIN hist :
    (NameOk(In(i).app) /\ In(i).args /= "early" /\ In(i).dev /\ ~In(i).env /\ Place(In(i)) /= "" /\ In(i).user = "true") => outs[i].yes
(* C13: whoever decides before the cookie leaves the cookies alone; C14: one run changes one cookie only. *)
CookiesOf(f, p) == [n \in {n \in DOMAIN f[p] : EndsWith(n, ".timestamp")} |-> f[p][n]]
Untouched == [][ LET o == LastOf(outs') in == Configs[c].inputs[LastOf(hist').in] IN
                 \A p \in DOMAIN files :
                    /\ o.by \in {"nobody", "developer", "environment", "directory", "option"} => CookiesOf(files', p) = CookiesOf(files, p)
                    /\ \A n \in DOMAIN files[p] : (n \notin {CookieName(in), VersionName(in)} \/ p /= Place(in)) =>
                            n \in DOMAIN files'[p] /\ files'[p][n] = files[p][n] ]_vars
(* C16: silence without a check. *)
Silence == \A i \in DOMAIN hist : ~outs[i].yes => outs[i].told = {} /\ ~outs[i].sent
(* C16: never two contradicting messages. *)
Consistent == \A i \in DOMAIN hist : ~({"update", "newer"} \subseteq outs[i].told) /\ ~({"register", "newer"} \subseteq outs[i].told)
(* C15: only sanitised texts. *)
SafeText == \A i \in DOMAIN hist : outs[i].sent =>
    /\ CharsIn(In(i).app, Alnum \cup {"_", "-"})
    /\ CharsIn(Sanitised(In(i).version), Digits \cup {"."})
    /\ VersionEnd(Sanitised(In(i).version)) = Len(Sanitised(In(i).version)) + 1

Emit == ((hist /= <<>> /\ Configs[c].emit) \/ (Len(hist) = Configs[c].depth /\ Configs[c].last)) =>
        PrintT(ToJson([c |-> Configs[c].id, h |-> hist, outs |-> outs, files |-> files,
                       versions |-> [i \in DOMAIN hist |-> Sanitised(In(i).version)]]))
=============================================================================
