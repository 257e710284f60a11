----------------------------- MODULE HelpPages -------------------------------
(* The pages an application can print instead of doing its work.            *)
(*                                                                          *)
(* Shown(in) is the format independent content of a page: the sequence of   *)
(* printed elements.  Page(in) is the exact sequence of lines.              *)
(*                                                                          *)
(* in: page     "help" | "adv" | "short" | "version" | "copyright" | "html" *)
(*              | "man" | "ctd" | "cwl"                                     *)
(*     width    of the terminal (0: unknown)   tty  output is a terminal    *)
(*     updates  the developer allows update checks                          *)
(*     exports  the supported formats;  exe  how the program was called     *)
(*     meta     texts;  subs  sorted subcommands                            *)
(*     pos      positional options;  elems  everything else, in the order   *)
(*              of the declarations                                         *)
(* "~[1m" etc. stand for the escape sequences of terminals.                 *)
EXTENDS Str

-------------------------------- (* markup *) --------------------------------
(* A text is a sequence of units: t, a printed text, or one of B, I, P.     *)
U(k, t, n) == [k |-> k, t |-> t, n |-> n]
UnitAt(s, i) ==
    LET c == Ch(s, i) IN
    IF c /= "\\" THEN U("t", c, 1)
    ELSE IF i = Len(s) THEN U("t", c, 1)
    ELSE LET d == Ch(s, i + 1) IN
         IF d = "-" THEN U("t", "-", 2)
         ELSE IF d /= "f" THEN U("t", c \o d, 2)
         ELSE IF i + 1 = Len(s) THEN U("t", "\\f", 2)
         ELSE LET e == Ch(s, i + 2) IN IF e \in {"B", "I", "P"} THEN U(e, "", 3) ELSE U("t", "\\f" \o e, 3)
RECURSIVE UnitsFrom(_, _)
UnitsFrom(s, i) == IF i > Len(s) THEN <<>> ELSE LET u == UnitAt(s, i) IN <<u>> \o UnitsFrom(s, i + u.n)
(* Texts without a backslash need no analysis. *)
Units(s) == IF s = "" THEN <<>> ELSE IF ~HasChar(s, "\\") THEN <<U("t", s, Len(s))>> ELSE UnitsFrom(s, 1)

Escape(k, tty) == IF ~tty THEN "" ELSE CASE k = "B" -> "~[1m" [] k = "I" -> "~[4m" [] k = "P" -> "~[0m"
RECURSIVE TextOf(_, _)
TextOf(us, tty) == IF us = <<>> THEN "" ELSE (IF us[1].k = "t" THEN us[1].t ELSE Escape(us[1].k, tty)) \o TextOf(Tail(us), tty)
Text(s, tty) == TextOf(Units(s), tty)
Width(s) == Len(TextOf(Units(s), FALSE))

XmlChar(c) == CASE c = "\"" -> "&quot;" [] c = "'" -> "&apos;" [] c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] OTHER -> c
RECURSIVE XmlFrom(_, _)
XmlFrom(s, i) == IF i > Len(s) THEN "" ELSE XmlChar(Ch(s, i)) \o XmlFrom(s, i + 1)
Xml(s) == IF \E c \in {"\"", "'", "&", "<", ">"} : HasChar(s, c) THEN XmlFrom(s, 1) ELSE s

TagOf(k) == IF k = "B" THEN "strong" ELSE "em"
RECURSIVE Html2(_, _)
Html2(us, open) ==          \* open: the tags that are open, the innermost first
    IF us = <<>> THEN (IF open = <<>> THEN "" ELSE "</" \o open[1] \o ">" \o Html2(us, Tail(open)))
    ELSE LET u == us[1] r == Tail(us) IN
         CASE u.k = "t" -> Xml(u.t) \o Html2(r, open)
           [] u.k \in {"B", "I"} -> "<" \o TagOf(u.k) \o ">" \o Html2(r, <<TagOf(u.k)>> \o open)
           [] u.k = "P" -> IF open = <<>> THEN Html2(r, open) ELSE "</" \o open[1] \o ">" \o Html2(r, Tail(open))
Html(s) == Html2(Units(s), <<>>)

(* In man pages a text must not look like a request or a comment. *)
RECURSIVE Man2(_, _)
Man2(s, i) ==
    IF i > Len(s) THEN ""
    ELSE LET c == Ch(s, i) start == i = 1 \/ Ch(s, i - 1) = "\n" IN
         (IF c \in {".", "'"} /\ start THEN "\\&" ELSE "")
         \o (IF c = "\\" /\ i < Len(s) THEN (IF Ch(s, i + 1) = "\"" THEN "\\\\\"" ELSE c \o Ch(s, i + 1)) \o Man2(s, i + 2)
             ELSE c \o Man2(s, i + 1))
Man(s) == IF \E c \in {".", "'", "\\"} : HasChar(s, c) THEN Man2(s, 1) ELSE s

RECURSIVE ToUpper(_)
ToUpperC(c) == IF c \in LowerSet THEN Ch(UpperStr, IdxIn(LowerStr, c)) ELSE c
ToUpper(s) == IF s = "" THEN "" ELSE ToUpperC(Head1(s)) \o ToUpper(From(s, 2))

-------------------------------- (* layout *) --------------------------------
Blank == {" ", "\t", "\n"}
RECURSIVE WordsFrom(_, _, _)
WordsFrom(s, i, w) == IF i > Len(s) THEN (IF w = "" THEN <<>> ELSE <<w>>)
                      ELSE IF Ch(s, i) \in Blank THEN (IF w = "" THEN <<>> ELSE <<w>>) \o WordsFrom(s, i + 1, "")
                      ELSE WordsFrom(s, i + 1, w \o Ch(s, i))
Words(s) == WordsFrom(s, 1, "")
LineWidth(width) == LET w == IF width = 0 THEN 80 ELSE width IN (IF w < 40 THEN 40 ELSE IF w > 120 THEN 120 ELSE w) - 2
(* The words ws[k..], the line so far is `line` and ends in column pos. *)
RECURSIVE Wrap(_, _, _, _, _, _, _)
Wrap(ws, k, tab, max, tty, line, pos) ==
    IF k > Len(ws) THEN <<line>>
    ELSE LET w == Width(ws[k]) t == Text(ws[k], tty) IN
         IF k = 1 THEN Wrap(ws, 2, tab, max, tty, line \o t, pos + w)
         ELSE IF pos + 1 + w > max THEN <<line>> \o Wrap(ws, k + 1, tab, max, tty, Repeat(" ", tab) \o t, tab + w)
         ELSE Wrap(ws, k + 1, tab, max, tty, line \o " " \o t, pos + 1 + w)
Paragraph(text, first, tab, max, tty) == Wrap(Words(text), 1, tab, max, tty, first, tab)

-------------------------------- (* content *) -------------------------------
TypeName(t) == CASE t = "i8" -> "signed 8 bit integer" [] t = "u8" -> "unsigned 8 bit integer"
                 [] t = "i16" -> "signed 16 bit integer" [] t = "u16" -> "unsigned 16 bit integer"
                 [] t = "i32" -> "signed 32 bit integer" [] t = "u32" -> "unsigned 32 bit integer"
                 [] t = "i64" -> "signed 64 bit integer" [] t = "u64" -> "unsigned 64 bit integer"
                 [] t = "f64" -> "double" [] t = "f32" -> "float" [] t = "bool" -> "bool" [] t = "str" -> "std::string"
                 [] t = "path" -> "std::filesystem::path" [] t = "enum" -> "colour"
TypeInfo(o) == IF o.list THEN "(\\fIList\\fP of \\fI" \o TypeName(o.type) \o "\\fP)" ELSE "(\\fI" \o TypeName(o.type) \o "\\fP)"

RECURSIVE QuoteFrom(_, _)
QuoteFrom(s, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) \in {"\"", "\\"} THEN "\\" ELSE "") \o Ch(s, i) \o QuoteFrom(s, i + 1)
Quoted(s) == "\"" \o QuoteFrom(s, 1) \o "\""
ShowValue(t, v) == IF t \in {"str", "path"} THEN Quoted(v) ELSE IF t = "bool" THEN (IF v = "true" THEN "1" ELSE "0") ELSE v
ShowDefault(o) ==
    IF o.list THEN "[" \o JoinStr([i \in DOMAIN o.def |-> ShowValue(o.type, o.def[i])], ", ") \o "]"
    ELSE ShowValue(o.type, o.def[1])
ShowMessage(o) == IF ~o.list /\ o.type \in {"str", "path"} THEN Quoted(o.defmsg) ELSE o.defmsg
DefaultText(o) == IF o.defmsg /= "" THEN " Default: " \o ShowMessage(o)
                  ELSE IF o.req THEN "" ELSE " Default: " \o ShowDefault(o)

ExtText(exts) == IF exts = <<>> THEN "" ELSE " Valid file extensions are: [" \o JoinStr(exts, ", ") \o "]."
Message(v, type) ==
    CASE v.kind = "range" -> "Value must be in range [" \o v.args[1] \o "," \o v.args[2] \o "]."
      [] v.kind = "oneof" -> "Value must be one of [" \o JoinStr([i \in DOMAIN v.args |-> IF type = "path" THEN Quoted(v.args[i]) ELSE v.args[i]], ", ") \o "]."
      [] v.kind = "regex" -> "Value must match the pattern '" \o v.args[1] \o "'."
      [] v.kind = "infile" -> "The input file must exist and read permissions must be granted." \o ExtText(v.args)
      [] v.kind = "outnew" -> "The output file must not exist already and write permissions must be granted." \o ExtText(v.args)
      [] v.kind = "outany" -> "Write permissions must be granted." \o ExtText(v.args)
      [] v.kind = "indir"  -> "An existing, readable path for the input directory."
      [] v.kind = "outdir" -> "A valid path for the output directory."
      [] OTHER -> v.msg
ChainText(o) == LET m == JoinStr([i \in DOMAIN o.chain |-> Message(o.chain[i], o.type)], " ") IN IF m = "" THEN "" ELSE ". " \o m

Ids(o) == (IF o.short /= "" THEN "\\fB-" \o o.short \o "\\fP" ELSE "")
          \o (IF o.short /= "" /\ o.long /= "" THEN ", " ELSE "")
          \o (IF o.long /= "" THEN "\\fB--" \o o.long \o "\\fP" ELSE "")

Section(t)   == [p |-> "section", t |-> t, d |-> "", par |-> FALSE]
Subsection(t) == [p |-> "subsection", t |-> t, d |-> "", par |-> FALSE]
Line(t, par) == [p |-> "line", t |-> t, d |-> "", par |-> par]
Item(t, d)   == [p |-> "item", t |-> t, d |-> d, par |-> FALSE]

Element(e) ==
    CASE e.e = "option" -> Item(Ids(e) \o " " \o TypeInfo(e), e.desc \o DefaultText(e) \o ChainText(e))
      [] e.e = "flag"   -> Item(Ids(e), e.desc)
      [] e.e = "section" -> Section(e.t)
      [] e.e = "subsection" -> Subsection(e.t)
      [] e.e = "line"   -> Line(e.t, e.par)
      [] e.e = "item"   -> Item(e.t, e.desc)
Positional(o, i) == Item("\\fBARGUMENT-" \o ToString(i) \o "\\fP " \o TypeInfo(o),
                         o.desc \o (IF o.list THEN " Default: " \o ShowDefault(o) ELSE "") \o ChainText(o))

Full(page) == page \in {"adv", "html", "man"}
Visible(e, page) == ~e.hid /\ (e.adv => Full(page))

Formats == {"text", "html", "man"}
FormatOf(page) == IF page \in {"html", "man"} THEN page ELSE "text"
(* Titles of the version and legal information are printed in bold. *)
Bold(s, f, tty) == CASE f = "text" -> Escape("B", tty) \o s \o Escape("P", tty)
                     [] f = "html" -> "\\fB" \o s \o "\\fP"
                     [] f = "man"  -> "\\fB" \o s \o "\\fR"
Synopsis(s) == LET i == {k \in 1..Len(s) : Ch(s, k) \in {" ", "\t"}}
                   k == IF i = {} THEN Len(s) + 1 ELSE CHOOSE x \in i : \A y \in i : x <= y IN
               "\\fB" \o SubSeq(s, 1, k - 1) \o "\\fP" \o From(s, k)
SynopsisLines(m) == [i \in DOMAIN m.synopsis |-> Line(Synopsis(m.synopsis[i]), FALSE)]
Paragraphs(ts) == [i \in DOMAIN ts |-> Line(ts[i], TRUE)]

Subcommands(in) ==
    IF in.subs = <<>> THEN <<>>
    ELSE <<Section("Subcommands"), Line("This program must be invoked with one of the following subcommands:", FALSE)>>
         \o [i \in DOMAIN in.subs |-> Line("- \\fB" \o in.subs[i] \o "\\fP", FALSE)]
         \o <<Line("See the respective help page for further details (e.g. by calling " \o in.meta.app \o " " \o in.subs[1] \o " -h).", TRUE),
              Line("The following options belong to the top-level parser and need to be specified \\fBbefore\\fP the subcommand key word. "
                   \o "Every argument after the subcommand key word is passed on to the corresponding sub-parser.", TRUE)>>
Common(in) ==
    <<Subsection("Common options"),
      Item("\\fB-h\\fP, \\fB--help\\fP", "Prints the help page."),
      Item("\\fB-hh\\fP, \\fB--advanced-help\\fP", "Prints the help page including advanced options."),
      Item("\\fB--version\\fP", "Prints the version information."),
      Item("\\fB--copyright\\fP", "Prints the copyright/license information."),
      Item("\\fB--export-help\\fP (std::string)", "Export the help page information. Value must be one of " \o in.exports \o ".")>>
    \o (IF in.updates THEN <<Item("\\fB--version-check\\fP (bool)", "Whether to check for the newest app version. Default: true")>> ELSE <<>>)
VersionInfo(in, f) ==
    LET m == in.meta b(s) == Bold(s, f, in.tty) IN
    <<Section("Version"), Line(b("Last update: ") \o m.date, FALSE), Line(b(m.app \o " version: ") \o m.version, FALSE),
      Line(b("Sharg version: ") \o in.lib, FALSE)>>
    \o (IF m.url = "" THEN <<>> ELSE <<Section("Url"), Line(m.url, FALSE)>>)
Legal(in, f) ==
    LET m == in.meta b(s) == Bold(s, f, in.tty)
        If(x, s) == IF x = "" THEN <<>> ELSE <<Line(s, FALSE)>> IN
    IF \A x \in {m.short_copyright, m.long_copyright, m.citation, m.author, m.email} : x = "" THEN <<>>
    ELSE <<Section("Legal")>>
         \o If(m.short_copyright, b(m.app \o " Copyright: ") \o m.short_copyright)
         \o If(m.author, b("Author: ") \o m.author)
         \o If(m.email, b("Contact: ") \o m.email)
         \o <<Line(b("SeqAn Copyright: ") \o "2006-2024 Knut Reinert, FU-Berlin; released under the 3-clause BSDL.", FALSE)>>
         \o If(m.citation, b("In your academic works please cite: ") \o m.citation)
         \o If(m.long_copyright, "For full copyright and/or warranty information see " \o b("--copyright") \o ".")

RECURSIVE OwnElements(_, _, _)
OwnElements(elems, page, i) ==
    IF i > Len(elems) THEN <<>>
    ELSE (IF Visible(elems[i], page) THEN <<Element(elems[i])>> ELSE <<>>) \o OwnElements(elems, page, i + 1)
Shown(in) ==
    LET m == in.meta f == FormatOf(in.page) IN
    CASE in.page = "short" -> SynopsisLines(m) \o <<Line("Try -h or --help for more information.", TRUE)>>
      [] in.page = "version" -> VersionInfo(in, f)
      [] OTHER ->
           (IF m.synopsis = <<>> THEN <<>> ELSE <<Section("Synopsis")>> \o SynopsisLines(m))
           \o (IF m.description = <<>> THEN <<>> ELSE <<Section("Description")>> \o Paragraphs(m.description))
           \o Subcommands(in)
           \o (IF in.pos = <<>> THEN <<>> ELSE <<Section("Positional Arguments")>> \o [i \in DOMAIN in.pos |-> Positional(in.pos[i], i)])
           \o <<Section("Options")>> \o OwnElements(in.elems, in.page, 1) \o Common(in)
           \o (IF m.examples = <<>> THEN <<>> ELSE <<Section("Examples")>> \o Paragraphs(m.examples))
           \o VersionInfo(in, f) \o Legal(in, f)

--------------------------- (* tool descriptions *) --------------------------
(* What is handed to the library that writes CTD and CWL documents: the     *)
(* positional options, then options and flags in their order, advanced ones *)
(* included.  "*": the value of lists and enumerations has no counterpart.  *)
Only(x, b) == IF b THEN <<x>> ELSE <<>>
FileKind(o) == IF o.list \/ Len(o.chain) /= 1 THEN "" ELSE o.chain[1].kind
Tags(o) == LET k == FileKind(o) IN
    Only("advanced", o.adv) \o Only("directory", k \in {"indir", "outdir"}) \o Only("file", k \in {"infile", "outnew", "outany"})
    \o Only("output", k \in {"outdir", "outnew", "outany"}) \o Only("required", o.req)
ToolValue(o) == CASE o.list \/ o.type = "enum" -> "*" [] o.type = "bool" -> "bool:" \o (IF o.def[1] = "true" THEN "1" ELSE "0")
                  [] o.type \in {"str", "path"} -> "string:" \o o.def[1] [] o.type \in {"f32", "f64"} -> "double:" \o o.def[1] [] OTHER -> "int:" \o o.def[1]
NodeLine(name, tags, value, desc) == "node " \o name \o " [" \o JoinStr(tags, ", ") \o "] " \o value \o " | " \o desc
OwnName(o) == IF o.long /= "" THEN o.long ELSE o.short
Spelled(o) == IF o.long /= "" THEN "--" \o o.long ELSE "-" \o o.short
ToolNode(e) == IF e.e = "option" THEN NodeLine(OwnName(e), Tags(e), ToolValue(e), e.desc \o DefaultText(e) \o ChainText(e))
               ELSE NodeLine(OwnName(e), Only("advanced", e.adv), "bool:0", e.desc)
ToolPositional(o, i) == NodeLine("positional_" \o ToString(i - 1), Only("required", ~o.list), IF o.list THEN "strings:0" ELSE "string:",
                                 o.desc \o (IF o.list THEN " Default: " \o ShowDefault(o) ELSE "") \o ChainText(o))
InTool(e) == e.e \in {"option", "flag"} /\ ~e.hid
RECURSIVE Nested(_, _, _, _)         \* the nodes of a subcommand are those of its name
Nested(exe, k, nodes, indent) ==
    IF k > Len(exe) THEN [i \in DOMAIN nodes |-> indent \o nodes[i]]
    ELSE <<indent \o NodeLine(exe[k], <<"basecommand">>, "nodes:" \o ToString(IF k = Len(exe) THEN Len(nodes) ELSE 1), "")>>
         \o Nested(exe, k + 1, nodes, indent \o "  ")
Tool(in) ==
    LET m == in.meta shown == SelectSeq(in.elems, InTool) opts == SelectSeq(shown, LAMBDA e : e.e = "option") IN
    <<in.page, "name " \o m.app, "version " \o m.version, "url " \o m.url, "executable " \o in.exe[1], "description">> \o m.description
    \o Nested(in.exe, 2, [i \in DOMAIN in.pos |-> ToolPositional(in.pos[i], i)] \o [i \in DOMAIN shown |-> ToolNode(shown[i])], "")
    \o [i \in DOMAIN opts |-> "maps " \o Spelled(opts[i]) \o " to " \o OwnName(opts[i])]

-------------------------------- (* formats *) -------------------------------
(* Each format prints one element after the other; st is what it remembers. *)
TextHeader(in) == LET m == in.meta t == m.app \o (IF m.short = "" THEN "" ELSE " - " \o m.short) IN
    <<t, Repeat("=", Width(m.app) + (IF m.short = "" THEN 0 ELSE 3 + Width(m.short)))>>
TextElement(x, in, st) ==       \* st: the element before was a paragraph
    LET max == LineWidth(in.width) gap == IF st THEN <<"">> ELSE <<>> IN
    CASE x.p = "section"    -> [l |-> <<"", Escape("B", in.tty) \o ToUpper(x.t) \o Escape("P", in.tty)>>, st |-> FALSE]
      [] x.p = "subsection" -> [l |-> <<"", "  " \o Escape("B", in.tty) \o x.t \o Escape("P", in.tty)>>, st |-> FALSE]
      [] x.p = "line"       -> [l |-> gap \o Paragraph(x.t, "    ", 4, max, in.tty), st |-> x.par]
      [] x.p = "item"       ->
            LET term == "    " \o Text(x.t, in.tty) pos == 4 + Len(x.t) IN
            [l |-> gap \o (IF x.d = "" THEN <<term>>
                           ELSE IF pos + 2 > 10 THEN <<term>> \o Paragraph(x.d, Repeat(" ", 10), 10, max, in.tty)
                           ELSE Paragraph(x.d, term \o Repeat(" ", 10 - pos), 10, max, in.tty)),
             st |-> FALSE]

HtmlHeader(in) == LET m == in.meta IN
    <<"<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01//EN\" http://www.w3.org/TR/html4/strict.dtd\">", "<html lang=\"en\">", "<head>",
      "<meta http-equiv=\"content-type\" content=\"text/html; charset=utf-8\">",
      "<title>" \o Xml(m.app) \o " &mdash; " \o Xml(m.short) \o "</title>", "</head>", "<body>",
      "<h1>" \o Html(m.app) \o "</h1>", "<div>" \o Html(m.short) \o "</div>">>
HtmlClose(st, own) == IF st = own \/ st = "" THEN <<>> ELSE <<"</" \o st \o ">">>
HtmlElement(x, in, st) ==       \* st: the open environment: "", "p" or "dl"
    CASE x.p \in {"section", "subsection"} -> LET h == IF x.p = "section" THEN "h2" ELSE "h3" IN
                [l |-> HtmlClose(st, "") \o <<"<" \o h \o ">" \o Html(x.t) \o "</" \o h \o ">">>, st |-> ""]
      [] x.p = "line" -> [l |-> HtmlClose(st, "p") \o (IF st = "p" THEN <<>> ELSE <<"<p>">>)
                                \o <<Html(x.t), IF x.par THEN "</p>" ELSE "<br>">>, st |-> IF x.par THEN "" ELSE "p"]
      [] x.p = "item" -> [l |-> HtmlClose(st, "dl") \o (IF st = "dl" THEN <<>> ELSE <<"<dl>">>)
                                \o <<"<dt>" \o Html(x.t) \o "</dt>", "<dd>" \o Html(x.d) \o "</dd>">>, st |-> "dl"]
HtmlFooter(st) == HtmlClose(st, "") \o <<"</body></html>">>

ManHeader(in) == LET m == in.meta IN
    <<".TH " \o ToUpper(m.app) \o " " \o ToString(m.man_section) \o " \"" \o m.date \o "\" \"" \o ToLower(m.app) \o " " \o m.version \o "\" \""
      \o m.man_title \o "\"", ".SH NAME", m.app \o " \\- " \o m.short>>
ManElement(x, in, st) ==        \* st: nothing was printed in this section
    CASE x.p = "section"    -> [l |-> <<".SH " \o ToUpper(x.t)>>, st |-> TRUE]
      [] x.p = "subsection" -> [l |-> <<".SS " \o x.t>>, st |-> TRUE]
      [] x.p = "line"       -> [l |-> (IF st THEN <<>> ELSE IF x.par THEN <<".sp">> ELSE <<".br">>) \o <<Man(x.t)>>, st |-> FALSE]
      [] x.p = "item"       -> [l |-> <<".TP", Man(x.t), Man(x.d)>>, st |-> FALSE]

RECURSIVE PrintAll(_, _, _, _, _)
PrintAll(xs, k, in, f, st) ==
    IF k > Len(xs) THEN (IF f = "html" THEN HtmlFooter(st) ELSE <<>>)
    ELSE LET r == CASE f = "text" -> TextElement(xs[k], in, st) [] f = "html" -> HtmlElement(xs[k], in, st) [] f = "man" -> ManElement(xs[k], in, st)
         IN r.l \o PrintAll(xs, k + 1, in, f, r.st)

License ==
    <<"Copyright (c) 2006-2024, Knut Reinert & Freie Universit?t Berlin", "Copyright (c) 2016-2024, Knut Reinert & MPI f?r molekulare Genetik",
      "All rights reserved.", "",
      "Redistribution and use in source and binary forms, with or without", "modification, are permitted provided that the following conditions are met:", "",
      "    * Redistributions of source code must retain the above copyright", "      notice, this list of conditions and the following disclaimer.",
      "    * Redistributions in binary form must reproduce the above copyright",
      "      notice, this list of conditions and the following disclaimer in the", "      documentation and/or other materials provided with the distribution.",
      "    * Neither the name of Knut Reinert or the FU Berlin nor the names of", "      its contributors may be used to endorse or promote products derived",
      "      from this software without specific prior written permission.", "",
      "THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS \"AS IS\"", "AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE",
      "IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE", "ARE DISCLAIMED. IN NO EVENT SHALL KNUT REINERT OR THE FU BERLIN BE LIABLE",
      "FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL", "DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR",
      "SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER", "CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT",
      "LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY", "OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH", "DAMAGE.">>
Copyright(in) ==
    LET m == in.meta B == Escape("B", in.tty) P == Escape("P", in.tty) IN
    <<Repeat("=", 80), B \o "Copyright information for " \o m.app \o ":", P \o Repeat("-", 80)>>
    \o (IF m.long_copyright /= "" THEN <<P \o m.long_copyright>>
        ELSE IF m.short_copyright /= ""
        THEN <<B \o m.app \o " full copyright information not available. Displaying short copyright information instead:", P \o m.short_copyright>>
        ELSE <<P \o m.app \o " copyright information not available.">>)
    \o <<Repeat("=", 80), B \o "This program contains SeqAn code licensed under the following terms:", P \o Repeat("-", 80)>>
    \o License

Page(in) ==
    CASE in.page = "copyright" -> Copyright(in)
      [] in.page \in {"ctd", "cwl"} -> Tool(in)
      [] FormatOf(in.page) = "text" -> TextHeader(in) \o PrintAll(Shown(in), 1, in, "text", FALSE)
      [] in.page = "html" -> HtmlHeader(in) \o PrintAll(Shown(in), 1, in, "html", "")
      [] in.page = "man"  -> ManHeader(in) \o PrintAll(Shown(in), 1, in, "man", TRUE)
=============================================================================
