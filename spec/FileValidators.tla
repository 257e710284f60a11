---------------------------- MODULE FileValidators ---------------------------
(* sharg's file and directory validators on a POSIX file system, as seen by *)
(* an unprivileged user that owns all entries.                              *)
(*                                                                          *)
(* fs: canonical relative path ("" = working directory) ->                  *)
(*     [kind |-> "dir" | "file" | "link" | "null" | "fifo",                 *)
(*      r, w, x |-> BOOLEAN, target |-> path of a link, data |-> content]   *)
EXTENDS Str

---------------------------------- (* paths *) -------------------------------
RECURSIVE Split(_)
Split(p) == LET i == FindFrom(p, "/", 1) IN
            IF i = 0 THEN <<p>> ELSE <<SubSeq(p, 1, i - 1)>> \o Split(From(p, i + 1))
Child(dir, name) == IF dir = "" THEN name ELSE dir \o "/" \o name
RECURSIVE ParentOf(_)
ParentOf(p) == LET L == {i \in 1..Len(p) : Ch(p, i) = "/"} IN
               IF L = {} THEN "" ELSE SubSeq(p, 1, (CHOOSE i \in L : \A j \in L : j <= i) - 1)
FileName(p) == LET c == Split(p) IN c[Len(c)]

(* Walking along the components of a path.                                  *)
(*   ok    - at is the canonical path of an existing entry                  *)
(*   noent - the last component(s) do not exist: dir/name is missing, rest  *)
(*           is what follows; link = TRUE if the walk ended in a dangling   *)
(*           symbolic link                                                  *)
(*   outside - above the working directory                                  *)
(*   error - not a directory, no permission, or a loop                      *)
RECURSIVE Walk(_, _, _, _, _)
Walk(fs, cur, comps, depth, linked) ==
    IF comps = <<>> THEN [st |-> "ok", at |-> cur, dir |-> "", name |-> "", rest |-> <<>>, link |-> linked]
    ELSE LET c == Head(comps) rest == Tail(comps)
             Error == [st |-> "error", at |-> "", dir |-> "", name |-> "", rest |-> <<>>, link |-> linked] IN
    IF fs[cur].kind /= "dir" THEN Error
    ELSE IF c = "" \/ c = "." THEN (IF ~fs[cur].x /\ c = "." THEN Error ELSE Walk(fs, cur, rest, depth, linked))
    ELSE IF ~fs[cur].x THEN Error
    ELSE IF c = ".." THEN (IF cur = "" THEN [Error EXCEPT !.st = "outside"] ELSE Walk(fs, ParentOf(cur), rest, depth, linked))
    ELSE IF Len(c) > 255 THEN Error
    ELSE LET k == Child(cur, c) IN
         IF k \notin DOMAIN fs THEN [st |-> "noent", at |-> "", dir |-> cur, name |-> c, rest |-> rest, link |-> linked]
         ELSE IF fs[k].kind = "link" THEN
              (IF depth > 8 THEN Error ELSE Walk(fs, cur, Split(fs[k].target) \o rest, depth + 1, linked \/ \A i \in DOMAIN rest : rest[i] = ""))
         ELSE Walk(fs, k, rest, depth, linked)

Resolve(fs, p) == IF p = "" THEN [st |-> "error", at |-> "", dir |-> "", name |-> "", rest |-> <<>>, link |-> FALSE]
                  ELSE Walk(fs, "", Split(p), 0, FALSE)

Exists(fs, p)   == Resolve(fs, p).st = "ok"
Is(fs, p, kind) == Exists(fs, p) /\ fs[Resolve(fs, p).at].kind = kind
CanCreateIn(fs, dir) == fs[dir].kind = "dir" /\ fs[dir].w /\ fs[dir].x

-------------------------------- (* extensions *) ----------------------------
Dotted(e) == "." \o (IF Head1(e) = "." THEN From(e, 2) ELSE e)
(* The leading dot of a hidden file does not start an extension. *)
ExtOk(exts, p) ==
    \/ exts = <<>>
    \/ LET n == FileName(p) v == ToLower(IF Head1(n) = "." THEN From(n, 2) ELSE n) IN
       n \notin {".", ".."} /\ \E i \in DOMAIN exts : EndsWith(v, ToLower(Dotted(exts[i])))

-------------------------------- (* validators *) ----------------------------
(* v = [kind |-> "infile" | "outfile" | "indir" | "outdir", over |-> BOOLEAN, exts |-> <<...>>, mask |-> string];       *)
(* over: open_or_create; mask: which of r, w, x the umask takes from the owner of a new entry.  A new file can be       *)
(* written by its creator whatever its mode is; a new directory is of use only if files can be created in it.           *)
Creatable(fs, p) == LET r == Resolve(fs, p) IN r.st = "noent" /\ r.rest = <<>> /\ CanCreateIn(fs, r.dir)
CreatableDir(fs, mask, p) == LET r == Resolve(fs, p) IN
    ~HasChar(mask, "w") /\ ~HasChar(mask, "x") /\
    r.st = "noent" /\ (\A i \in DOMAIN r.rest : r.rest[i] = "") /\ ~r.link /\ CanCreateIn(fs, r.dir)

AcceptsPath(fs, v, p) ==
    LET at == Resolve(fs, p).at IN
    CASE v.kind = "infile"  -> /\ Is(fs, p, "file") /\ fs[at].r /\ ExtOk(v.exts, p)
      [] v.kind = "outfile" -> /\ ExtOk(v.exts, p)
                               /\ \/ Creatable(fs, p)
                                  \/ v.over /\ Is(fs, p, "file") /\ fs[at].w
                                  \/ v.over /\ Is(fs, p, "null")
      [] v.kind = "indir"   -> Is(fs, p, "dir") /\ fs[at].r
      [] v.kind = "outdir"  -> \/ Is(fs, p, "dir") /\ CanCreateIn(fs, at)
                               \/ CreatableDir(fs, v.mask, p)
(* Opening a pipe for writing waits for a reader: not specified. *)
(* Neither are paths leaving the modelled part of the file system.            *)
SpecifiedPath(fs, v, p) ==
    /\ ~(v.kind = "outfile" /\ v.over /\ Is(fs, p, "fifo"))
    /\ Resolve(fs, p).st /= "outside"

AcceptsAll(fs, v, ps) == \A i \in DOMAIN ps : AcceptsPath(fs, v, ps[i])

(* Validation changes nothing.  The recorded deviation: an existing regular file that open_or_create accepts is removed. *)
RECURSIVE LastEntry(_, _, _)
LastEntry(fs, cur, comps) ==    \* the entry that unlink(path) removes
    IF Len(comps) = 1 THEN Child(cur, comps[1])
    ELSE LET w == Walk(fs, "", (IF cur = "" THEN <<>> ELSE Split(cur)) \o <<comps[1]>>, 0, FALSE) IN LastEntry(fs, w.at, Tail(comps))
Removed(fs, v, p) ==
    IF v.kind = "outfile" /\ v.over /\ AcceptsPath(fs, v, p) /\ Is(fs, p, "file")
    THEN LET e == LastEntry(fs, "", Split(p)) IN IF CanCreateIn(fs, ParentOf(e)) THEN {e} ELSE {}
    ELSE {}
RECURSIVE Deviate(_, _, _)
Deviate(fs, v, ps) ==           \* the file system after validating ps one after the other, up to the first rejected one
    IF ps = <<>> THEN fs
    ELSE IF ~AcceptsPath(fs, v, Head(ps)) THEN fs
    ELSE LET gone == Removed(fs, v, Head(ps)) IN Deviate([k \in DOMAIN fs \ gone |-> fs[k]], v, Tail(ps))
=============================================================================
